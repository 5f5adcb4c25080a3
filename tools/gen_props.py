#!/usr/bin/env python3
"""Writes /verif/properties.jsonl (the source of the property texts)."""
import json, os
P = []
def p(id, title, statement, over, text, why, files, mech, observe, state=None):
    P.append(dict(id=id, title=title, statement=statement,
        quantifier=dict(over=over, text=text), why_tests_cant=why,
        anchors=dict(files=files, state=state or [], mechanism=[dict(name=n, where=w) for n, w in mech],
                     observe_at=observe, hook_needed=None)))
FR="derive/src/from_request/mod.rs"; PA="derive/src/from_request/parse.rs"; SV="src/service.rs"; LB="src/lib.rs"; BO="src/body.rs"; ER="src/error.rs"

p("P01","Each request is dispatched by its own method and path, in any traffic",
  "Every request that reaches a service is decoded as exactly the route whose HTTP method and complete path pattern it matches, and every placeholder gets exactly its own raw path segment (or, for a rest placeholder, the raw remainder of the path) parsed with the field's `FromStr`. A `#[query_params]` field is deserialized from exactly the request's own query string (a missing one counting as empty), and a query string that does not deserialize is answered 400. If no route's path matches and the type has no fallback, or if a matched placeholder does not parse, the answer is 404; in all these cases neither guards, body nor handler run. The decision depends only on that request and the route table: never on earlier, concurrent or aborted requests, on how its bytes were fragmented, or on the order of scheduling.",
  ["inputs","programs","histories","schedules"],
  "all route tables the derive accepts, all request targets and methods, in every interleaving with other requests on any number of connections",
  "Unit tests decode a few dozen isolated hand-written requests with from_request_sync against about ten tables; none sends requests through a running server, concurrently, after failed or aborted ones, or samples the table/target space.",
  [FR,PA],[("regex per unique path, `RegexSet` + lazy statics shared by all requests",FR),("(path index, method) -> variant match",FR),("placeholder capture + FromStr",FR),("segment parsing, literal escaping, overlap rejection",PA)],
  ["handler argument","response status"])
p("P02","Wrong-method requests get 405 with exactly the methods that path accepts",
  "A request whose path matches a route but whose method does not is answered 405 with an `Allow` header listing exactly the methods of the routes on that path whose placeholders all parse for this request's path (implicit HEAD included; possibly empty), unless a fallback variant accepts it. If the fallback's own decoding also fails with 405, the answer's `Allow` is the union of both sets; any other outcome of the fallback, including a plain 404 or a guard's error, is passed on unchanged. None of the non-matching routes' guards, bodies or handlers run.",
  ["inputs","programs","schedules"],
  "all route tables with or without fallback, all targets and all methods, under any interleaving and any delay of the fallback's asynchronous steps",
  "A handful of tests check allowed_methods() of a synchronous decode; the merge with a fallback runs asynchronously after guards and is tested with immediately ready futures only.",
  [FR,ER],[("find_accepted_methods / variant_matches_path",FR),("merge in map_err of the forwarded future",FR),("Error::wrong_method, Error::response",ER)],["Allow header","response status"])
p("P03","HEAD is served by GET routes and its response never carries a body",
  "A HEAD request to a path that has a GET route and no overlapping explicit HEAD route is handled exactly like the GET (same variant, same fields, same guards, same status and headers), and an explicit HEAD route wins over the implicit one. Whatever the handler returns, including streaming or failing bodies, the response to a HEAD request carries no body bytes, so the responses that follow on the same connection stay intact; responses to every other method keep their body unchanged.",
  ["inputs","histories","schedules","programs"],
  "all tables mixing GET/HEAD routes, all handler bodies, any pipelining of HEAD with other requests, any fragmentation and delay",
  "One test issues one HEAD over reqwest to each service type; nothing pipelines HEAD with other requests, uses streaming bodies, or checks byte alignment of what follows.",
  [PA,SV],[("implied HEAD routes",PA),("is_head captured before decoding; body replaced by Body::empty()",SV)],["response bytes on the wire","response body stream"])
p("P04","Extraction runs in order and stops at the first failure",
  "For each request the steps run strictly one after the other: path placeholders, query parameters, guards in declaration order, then the body (or the forwarded decoder), then the handler; a later step does not start before the earlier one has succeeded, whatever delays the steps have. The first step that fails decides the request's outcome and no later step (guard, body read, forward, handler) is ever started.",
  ["inputs","schedules","fault_sequences","programs"],
  "all variants with any subset of placeholders, query, guards, body and forward fields; every assignment of delays and failures to the steps; every interleaving with other requests",
  "Tests use guards and bodies that are ready at once; no test observes the relative order of asynchronous steps or checks that later ones are not started after a delayed failure.",
  [FR],[("and_then chain built in reverse declaration order",FR)],["recorded step events per request"])
p("P05","A decoded body depends only on the body's bytes",
  "For the provided JSON and HTML-form body types, the decoded value (or the decode error) is the one obtained by decoding the concatenation of all received body bytes, however the body was split into chunks or TCP segments, delayed, or interleaved with other requests' bodies. Every byte sent for the request, and no other byte, takes part; content type and transfer coding do not change the result.",
  ["inputs","schedules","histories"],
  "all body byte strings, all chunkings/transfer codings/delays including empty chunks, any number of concurrent uploads",
  "Tests decode single-chunk in-memory bodies; no test splits a body (inside a UTF-8 sequence, an escape, a percent-triplet), delays parts of it, or interleaves uploads.",
  [BO],[("body.concat2() then serde",BO)],["decoded field value","error outcome"])
p("P06","A truncated or failed upload is never taken for a complete body",
  "If the request body stream ends with an error or before its announced end (connection reset, early close, incomplete chunked coding, stream reset), the decoding of a JSON or HTML-form body fails for that request and its handler is not run, even if the bytes received so far happen to form a valid value. A body that was received completely is never reported as failed because the connection breaks later.",
  ["fault_sequences","crash_points","inputs","schedules"],
  "all bodies (with valid prefixes), all truncation points and failure kinds, all timings",
  "No test injects a body error or a truncated upload.",
  [BO,FR],[("map_err of the body stream error into BoxedError",BO)],["handler invocations","decode result"])
p("P07","Errors become the documented response, and only hyperdrive errors do",
  "When decoding, a guard, a body or an asynchronous handler fails with a hyperdrive error, the service answers with exactly that error's status, an empty body, and an `Allow` header if and only if the status is 405, immediately after the failure and however late in the request it occurs. Any other error is passed to the caller of the service unchanged, is never turned into a response, and affects no request other than its own.",
  ["inputs","schedules","fault_sequences"],
  "all error statuses and error types, raised at any step, synchronously or after any delay, in either service type",
  "Tests check the mapping for an immediate 404/405/400 over one connection; non-hyperdrive errors, delayed errors and errors raised by handlers are not exercised.",
  [SV,ER],[("or_else + downcast_ref::<Error>",SV),("Error::response",ER)],["response status/headers/body","service future's error"])
p("P08","The handler runs exactly once per decoded request, with one response",
  "For every request that decodes successfully and is not cancelled, the handler is invoked exactly once, and the service produces exactly one response: the one that invocation returned. This holds for asynchronous handlers and for synchronous handlers run on the blocking pool, however often and by whichever thread the future is polled, and however long the pool is saturated before a blocking slot is free.",
  ["schedules","histories","fault_sequences"],
  "all poll patterns (spurious, delayed, migrated between workers), all blocking-pool capacities and saturation patterns, any number of concurrent requests",
  "Tests send one request at a time to an idle pool; the NotReady path of the blocking pool and repeated or spurious polls are never reached.",
  [SV,LB],[("Option dance in blocking()",LB),("handler Arc cloned per call",SV)],["handler invocation count per request id","responses per request"])
p("P09","Responses and requests are never mixed up between requests",
  "On every connection the n-th response answers the n-th request, and each handler, guard and body decoder sees exactly the method, URI, version, headers and extensions its own client sent, no matter how many connections and pipelined or multiplexed requests are in flight. The request handed to the handler is the original one: no header, extension or part of it is lost, altered or taken from another request, and header/body values of the handler's response reach the client unchanged.",
  ["schedules","histories","inputs"],
  "all numbers of connections, pipelining depths, HTTP/1 and HTTP/2 multiplexing, all completion orders of the handlers",
  "Tests make single sequential requests; cross-request mixing under concurrency cannot show up.",
  [SV,FR,LB],[("parts split off once and shared through Arc<Request<()>>",SV),("from_request splitting parts/body",LB)],["request echo recorded by every step","unique token in each response"])
p("P10","catch_unwind turns any panic of the wrapped service into a response",
  "With the panic-catching wrapper, a panic anywhere in the wrapped service (while the request is being dispatched, in `FromStr`, guard, body, asynchronous or synchronous handler, at the first or any later poll, before or after suspension) calls the panic handler exactly once with the original payload, and that handler's result, response or error, immediate or delayed, is the outcome of exactly the panicking request. Other in-flight and later requests, on the same and on other connections, are unaffected, and requests that do not panic pass through with response and error unchanged.",
  ["schedules","fault_sequences","inputs"],
  "all panic points and payloads, all interleavings with other requests, repeated panics, both service types and any inner service",
  "tests/catch_unwind.rs panics once per service kind with one sequential request; no concurrent requests, late polls, or panics between suspensions.",
  [SV],[("catch_unwind around call and around each poll",SV)],["panic handler invocations with payload","responses of bystander requests"])
p("P11","blocking() runs its closure once, off the event loop, and returns its result",
  "The future returned by `blocking` runs its closure at most once, inside a blocking section of the thread pool and never before it is polled, waits without losing the closure while no blocking capacity is available, and resolves with exactly the closure's `Ok` or `Err`. A future dropped before the closure started never runs it, and a pool that has shut down produces a panic rather than a wrong or missing result. Synchronous service handlers run this way, so a handler that blocks does not stall the worker that drives other requests.",
  ["schedules","fault_sequences","crash_points"],
  "all saturation/capacity patterns, spurious polls, drops at any instant, pool shutdown, closures that block, fail or panic",
  "No test saturates the pool, drops the future, or shuts the pool down.",
  [LB,SV],[("poll_fn around tokio_threadpool::blocking",LB)],["closure start/finish events and the blocking section they ran in"])
p("P12","A cancelled request stops, and leaks or disturbs nothing",
  "When the future of a request is dropped (client gone, stream reset, connection closed) at any instant, no further step of that request (guard, body read, handler) starts afterwards and every value created for it (guards, decoded fields, body, context clone, request) is released; a synchronous handler that already started runs to its end at most. When a connection is finished nothing of its requests remains alive, in whatever way they ended, so that serving the same requests again and again needs no more memory, descriptors or threads; other requests are not disturbed.",
  ["crash_points","schedules","fault_sequences"],
  "cancellation at every instant relative to the request's steps, any number of concurrent requests",
  "No test drops a pending future or closes a connection in the middle of a request.",
  [SV,FR,LB],[("single owned future chain, Arcs per request",SV)],["step events after the drop","live-object counters at quiescence"])
p("P13","Every request sees its own service's context, and contexts are not mixed",
  "Guards, bodies and forwarded decoders of a request receive the context given to the service (or the field of it selected by `#[as_ref]`, or the unit context), the same value for all steps of the request, for every clone of the service and every connection. Two services created with different contexts in one process never see each other's context, and a request's work on its copy of the context is not visible through another service's context.",
  ["histories","schedules","configurations","programs"],
  "all context types (custom, nested as_ref fields, none), several services with different contexts serving interleaved requests on many connections",
  "Context tests build one service/one request; no interleaving of two differently configured services.",
  [SV,FR,"derive/src/request_context.rs"],[("context.clone() per call and in make_service",SV),("context.as_ref() per step",FR),("RequestContext derive",  "derive/src/request_context.rs")],["context id recorded by every guard/body/forward step"])
p("P14","Forwarding is transparent: the inner decoder sees the untouched request",
  "A forwarded (inner) decoder receives the same request metadata, the whole untouched body and the same context as if it had been used directly, after the outer variant's guards succeeded; its result, success or any error other than a merged 405, is the outer result. A fallback variant is used exactly when no route's path matches, or when the path matches with another method; it is never tried when a route accepts the request, not even if that route later fails.",
  ["inputs","programs","schedules","fault_sequences"],
  "all nestings of forwarding (with and without route), all inner outcomes, delays and body chunkings",
  "Tests forward immediately-ready, body-less inner decoders one level deep.",
  [FR],[("forward field: from_request_and_body(&request, body, context)",FR),("fallback arms",FR)],["inner steps' events","constructed value"])
p("P15","from_request_sync gives the same result as the asynchronous decoder",
  "For every request, body stream and context, the synchronous entry point returns exactly the value or error the asynchronous entry points yield (from a whole request as well as from separated parts), after the same steps in the same order, even if the body or the steps become ready only after any number of wake-ups, possibly issued from inside a poll or from other tasks on that runtime. It returns when decoding is finished and leaves nothing running.",
  ["inputs","schedules","fault_sequences","programs"],
  "all requests, chunked/failing/late bodies, steps that suspend any number of times",
  "Tests use from_request_sync only with immediately available bodies, and never compare it with the asynchronous path.",
  [LB],[("default methods from_request / from_request_sync",LB)],["result value/error and step events of both paths"])
p("P16","A stalled request does not hold up others, and work finishes once faults stop",
  "A request that is waiting (for its body, for a delayed guard or handler, for a free blocking slot, or on a stalled client) never prevents requests of other connections or streams from being decoded, handled and answered. Once all its own delays are over and faults have stopped, every request that was not cancelled reaches its outcome within a bounded number of steps: wake-ups are never lost.",
  ["schedules","fault_sequences","histories"],
  "all mixes of stalled and healthy requests, all delays, spurious wake-ups, saturated blocking pools, partitions followed by heal",
  "Tests have no concurrency and no stalls; a lost wake-up or an inline blocking call would not be noticed.",
  [SV,LB,FR],[("future chain propagates polls/wakeups",FR),("blocking() keeps the worker usable",LB)],["completion of every request within the bound in simulated time"])
p("P17","Service adapters give every connection an equivalent service",
  "Making a service for a connection, by the service types themselves or by the make-service-by-cloning adapter, succeeds at once and yields a service with the same handler, context and panic handling as the original, for any number of connections, before and after earlier connections failed or panicked. The panic-catching wrapper and its clones keep the wrapped service's behaviour, including its readiness: a request is not pushed into a wrapped service that reports it is not ready, and its readiness errors are reported.",
  ["histories","configurations","schedules","fault_sequences"],
  "all nestings of the adapters, all numbers of connections and clones, all readiness patterns of the wrapped service",
  "Tests create one connection per service and wrap only always-ready services.",
  [SV],[("MakeService impls, Clone impls",SV),("MakeServiceByCloning",SV),("CatchUnwind Service impl",SV)],["per-connection service behaviour","inner poll_ready/call order"])

out=os.path.join(os.path.dirname(os.path.abspath(__file__)),"..","properties.jsonl")
with open(out,"w") as f:
    for x in P:
        assert len(x["title"])<=80,(x["id"],len(x["title"]))
        f.write(json.dumps(x,ensure_ascii=False)+"\n")
print(len(P))
