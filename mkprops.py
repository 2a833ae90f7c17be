#!/usr/bin/env python3
"""Writes properties.jsonl (kept as code so that statements stay reviewable)."""
import json, os
U = "openleadr/utils.py"; M = "openleadr/messaging.py"; C = "openleadr/client.py"; S = "openleadr/server.py"
VS = "openleadr/service/vtn_service.py"; ES = "openleadr/service/event_service.py"; PS = "openleadr/service/poll_service.py"
RG = "openleadr/service/registration_service.py"; RS = "openleadr/service/report_service.py"; PF = "openleadr/preflight.py"
OB = "openleadr/objects.py"; T = "openleadr/templates"
P = []
def prop(id, title, statement, over, qtext, why, files, mech, state=(), observe=()):
    P.append({"id": id, "title": title, "statement": statement,
              "quantifier": {"over": over, "text": qtext}, "why_tests_cant": why,
              "anchors": {"files": files, "state": [dict(zip(("name", "meaning", "where"), s)) for s in state],
                          "mechanism": [{"name": n, "where": w} for n, w in mech],
                          "observe_at": list(observe), "hook_needed": None}})

prop("P01", "Emitted messages are schema-valid and carry the supplied values verbatim",
     "Every OpenADR message the library builds from arguments its interface accepts (with the fields the OpenADR 2.0b schema requires, and text that XML 1.0 can represent), signed or unsigned, VTN or VEN side, is well-formed XML that validates against that schema. Each text, number, time, duration and flag supplied by the caller appears in its element with exactly that value, whatever characters the text contains (including markup characters and non-ASCII); only target kinds other than group, resource, VEN and party ids (and the device class of a signal) and the measurements of report requests are not transmitted, and the current value of a SIMPLE signal is 0 while its event is not active. Repeated items (events, signals, intervals, targets, reports, responses, requests) appear once each, in the order given.",
     ["inputs", "configurations"], "all payloads of all message types, any text content, signed and unsigned",
     "The tests build a few dozen fixed payloads of plain ASCII words and only check that the library's own parser reads them back.",
     [M, PF, U, T], [("create_message", M), ("preflight_message", PF), ("templates", T)],
     observe=["return value of create_message", "every HTTP body either role emits"])

prop("P02", "Parsing returns what the message says",
     "Parsing a schema-valid OpenADR message, in whatever XML notation, returns its message type and the values written in it: free text and identifiers as the same text (apart from surrounding white space; request ids that are plain numbers may come back as that number), times as the same instant, durations as the same length, measured and signal values as the same number, flags as the same truth value, and event targets both as a list and grouped by type describing the same set. Repeated elements come back as lists in document order with no element dropped, merged or duplicated, and a single event, signal, interval, report, data point, response or target still comes back as a list of one. Parsing what the library built gives back the payload it was built from, and the result never depends on messages parsed earlier.",
     ["inputs", "histories"], "all schema-valid messages of all types, and sequences of them",
     "Tests parse a fixed set of sample files and fixed payloads; text that looks like a number, repeated elements and unusual optional parts are not sampled.",
     [M, U], [("parse_message", M), ("normalize_dict", U), ("parse_datetime, parse_duration, parse_boolean", U)],
     observe=["return value of parse_message"])

prop("P03", "Durations and times survive encoding and decoding",
     "Encoding any whole-second duration gives a valid OpenADR duration text that decodes to the same length, and every valid OpenADR duration text (weeks, days, hours, minutes, seconds, a leading sign, zero) decodes to the length it denotes, counting a year as 365 days and a month as 30. Encoding any timezone-aware time gives the same instant in UTC to the microsecond, and decoding a UTC time text with any number of fractional digits gives that instant truncated to the microsecond. Text that is not a duration is refused, never silently read as some other length.",
     ["inputs"], "all whole-second durations, all schema-valid duration texts, all aware datetimes",
     "Tests try about ten literals; negative, multi-week, over-24-hour and zero durations and odd UTC offsets are outside them.",
     [U], [("timedeltaformat / parse_duration", U), ("datetimeformat / parse_datetime", U)],
     observe=["utils.parse_duration, timedeltaformat, parse_datetime, datetimeformat", "duration and date-time elements on the wire"])

prop("P04", "Hostile requests cannot crash, mislead or stall the VTN",
     "Whatever bytes, headers, content type or message type a peer posts to any endpoint (with the operator's own handlers not failing), the VTN answers either with an HTTP 4xx status or with a schema-valid OpenADR message (an oadrResponse is answered with an empty body), never with a 5xx or a dropped connection. No application handler or callback runs for content that is not a schema-valid OpenADR message, and no file or network resource named inside a request is ever read. Afterwards the queued events, registered handlers and answers seen by all other VENs are the same as if the request had never been sent.",
     ["inputs", "histories"], "all request bodies, headers and endpoints, in any order between legitimate traffic",
     "Tests post three malformed bodies; mutated, truncated, wrongly typed, entity-bearing and out-of-context messages are unbounded.",
     [VS, M, ES, RS, RG, PS], [("handler", VS), ("error_response", VS), ("validate_xml_schema", M), ("parse_message", M)],
     observe=["HTTP status and body", "application handler invocations"])

prop("P05", "Every VTN answer matches its request",
     "Every accepted request is answered with the OpenADR answer type defined for it, code 200, the request id of that request and the VEN's own id; requests handled at the same time never exchange answers. A message sent to an endpoint of another service is answered with code 459, a message naming another VTN with code 452, and a protocol error raised by an application handler is reported with the code and description it was raised with, in a schema-valid message. In none of those refused cases does the handler for the message take effect.",
     ["inputs", "schedules", "configurations"], "all message types × endpoints × ids, and all interleavings of concurrent requests with slow handlers",
     "Tests check single sequential requests for a few types and never inspect request id pairing under concurrency.",
     [VS, "openleadr/errors.py", RG, ES, RS, PS], [("handle_message / handler", VS), ("error_response", VS)],
     observe=["request and answer bodies on the HTTP boundary"])

prop("P06", "A VEN is handed exactly its own outstanding events",
     "When a VEN asks the VTN for its events it receives exactly the events queued for that VEN that are outstanding (with the VTN's own event queue in use), each once, and never an event queued for another VEN, even when event ids coincide. An event stays outstanding until the VEN confirms its cancellation or it has been handed out once with status completed; the handing out with status completed does carry the event. The delivery callback given with an event runs each time that event, and no other, is handed out.",
     ["histories", "schedules"], "all histories of add, cancel, request, poll and response over several VENs with time passing",
     "Tests queue one or two events for one VEN; multi-VEN histories, coinciding ids and completion while other events are queued are not reached.",
     [ES, PS, S, U], [("request_event", ES), ("poll", PS), ("add_event/add_raw_event/cancel_event", S)],
     state=[("event queue per VEN", "outstanding events", S)], observe=["oadrDistributeEvent bodies per VEN", "delivery callbacks"])

prop("P07", "No event change is ever lost between polls",
     "After an event is added or cancelled for a VEN, the first poll by that VEN that the VTN begins to handle afterwards is answered with the VEN's outstanding events including that change, whatever other additions, cancellations, polls, responses or slow callbacks overlap with it. With no change since the last such answer, a poll is answered with an empty response. A change for one VEN never causes or suppresses a delivery to another.",
     ["schedules", "histories"], "all interleavings of API calls by the operator with polls in progress, for several VENs",
     "Tests run one request at a time, so a change landing while a poll is being answered is never exercised.",
     [PS, ES, S], [("poll", PS), ("events_updated", PS), ("cancel_event", S)],
     state=[("update flag per VEN", "whether there is something new to deliver", PS)], observe=["poll answers", "order of API calls and poll handling"])

prop("P08", "Event status and order follow the clock and the priorities",
     "Each time events are handed out, an event that was not cancelled carries the status its active period and ramp-up dictate at that moment: far before, near from ramp-up start, active from its start, completed from its end, with an event of zero duration staying active once started; a cancelled event stays cancelled. Active events come before all others; active events are ordered by priority (1 highest, larger numbers lower, 0 or absent lowest) and then by start, other events by start. Status never moves backwards as time passes.",
     ["histories", "inputs"], "all sets of events and all moments of asking, to both sides of every boundary",
     "Tests compare a handful of orderings at the present moment; boundaries and the mix of priorities and start times are not covered.",
     [U, ES], [("determine_event_status", U), ("order_events", U)], observe=["eventStatus and event order in oadrDistributeEvent"])

prop("P09", "An event reaches the VEN's handler with the content it was given",
     "An event added at the VTN, with the convenience method or as a full event (object or dict), reaches the VEN's event handler with the same event id, modification number, market context, priority, test flag, comment, start, duration, notification, ramp-up, recovery and tolerance periods, response requirement, targets, and all signals with their names, types, ids, current values, measurements and intervals in the same order (the current value of a SIMPLE signal is 0 while its event is not active). Where the active period was not given and the intervals follow each other without a gap, it spans exactly from the earliest interval start to the latest interval end. Queuing or delivering one event never alters another event or the content of a later delivery of the same event, apart from status, its timestamps and the modification number.",
     ["inputs", "histories"], "all events acceptable to the interface, repeated deliveries",
     "Tests send a few events with one signal and check two or three fields at the VEN.",
     [S, OB, PF, M, U, C], [("add_event/add_raw_event", S), ("templates/parts/eiEvent*.xml", T), ("normalize_dict", U), ("_on_event", C)],
     observe=["arguments of add_event/add_raw_event", "event given to the VEN handler", "oadrDistributeEvent bodies"])

prop("P10", "The answer to an event reaches its callback exactly once",
     "The first response a VEN gives to an event queued for it with a callback runs that callback exactly once (or completes the given future) with that VEN's id, that event's id and the opt type sent; it never reaches the callback of another event or of the same event id queued for another VEN. Later responses, duplicates and responses sent by other VENs never run it again, and an entry naming an unknown event or modification number runs no callback and makes the answer code 452. Failing or slow callbacks do not stop responses to other events from being delivered.",
     ["histories", "schedules", "inputs"], "all sequences of responses (duplicated, reordered, batched, forged) from several VENs",
     "Tests send one correct response; duplicates, batches, cross-VEN responses and reuse of ids are unsampled.",
     [ES, S], [("created_event", ES), ("event_callbacks", S)], observe=["callback invocations", "oadrCreatedEvent and its answer"])

prop("P11", "A cancelled event is announced until acknowledged, then gone",
     "Cancelling a queued event marks it cancelled, raises its modification number by exactly one and makes it part of that VEN's next poll answer; every later event request carries it as cancelled until that VEN responds to that modification number, after which it is never handed out again. Cancelling an unknown event or VEN changes nothing. The other events of that and every other VEN keep their status, modification number and content.",
     ["histories", "fault_sequences"], "all histories of cancellation, repeated requests, lost and stale responses",
     "One test cancels one event and acknowledges it at once.",
     [S, ES, U], [("cancel_event", S), ("increment_event_modification_number", U), ("created_event", ES)],
     observe=["oadrDistributeEvent bodies", "responses"])

prop("P12", "The VEN handlers see each event version exactly once",
     "For every event the VTN delivers, the VEN's new-event handler runs exactly once when the event id is first seen, and its update handler runs exactly once for each later delivery whose modification number differs from the one last seen; deliveries of an already seen version run no handler and are answered with the opt given before, as long as the VEN remembers the event (it forgets events that are over). This holds for events in a batch independently of the other events in it, for signals and statuses of every kind, and for redeliveries after cancellation or completion.",
     ["histories", "inputs"], "all sequences of deliveries with new, repeated, updated, cancelled and completed events in any batch",
     "Tests deliver one event, sometimes twice.",
     [C], [("_on_event", C), ("received_events / responded_events", C)],
     state=[("received events", "latest version of each event known", C), ("responded events", "opt previously given", C)],
     observe=["on_event/on_update_event invocations", "oadrCreatedEvent bodies"])

prop("P13", "The VEN answers each delivered event correctly",
     "For each delivery the VEN sends one event response message holding exactly one entry for each event that requires a response and whose active period has not passed, in order, and none at all if there is no such event; each entry repeats the event id, modification number and request id of the delivery. The opt type is what the handler for that event returned (plain or async); an event whose handler failed or returned anything but optIn or optOut is opted out, without affecting the answers to the other events. An event with a signal name that OpenADR does not define (an x- name) is answered with code 460, others with code 200.",
     ["inputs", "histories", "configurations"], "all batches of events, handler results and failures",
     "Tests check the answer for single events with well-behaved handlers.",
     [C, M], [("_on_event", C), ("oadrCreatedEvent.xml", T)], observe=["handler results", "oadrCreatedEvent bodies"])

prop("P14", "The VEN forgets exactly the events that are over",
     "The VEN's periodic clean-up removes from its event memory every event that is cancelled or whose active period has passed, and no other event; an open-ended (zero duration) event is never removed because of time. Removing one event never disturbs the memory, opt answers or later updates of the others. Between clean-ups the remembered status of each event follows the clock in the same way as at the VTN.",
     ["histories", "schedules"], "all sets of events and all moments of clean-up relative to deliveries",
     "Tests run the clean-up once on a fixed list.",
     [C, U], [("_event_cleanup", C), ("_event_status_log", C)], state=[("received events", "event memory", C)],
     observe=["client.received_events at quiescent points", "handler invocations on redelivery"])

prop("P15", "The VEN survives communication faults and recovers",
     "No lost, delayed, refused, empty, truncated, malformed or erroneous answer from the VTN, at any point after registration, stops the VEN's polling or report sending or raises an unhandled error. Once the faults stop, the VEN polls again within one poll interval, and every event change still outstanding at the VTN reaches the VEN's handler the next time the VTN hands it out. A fault never makes a handler run for content the VTN did not send.",
     ["fault_sequences", "crash_points", "schedules"], "all placements of transport faults over the exchanges of a session",
     "Tests cover one unreachable server at start-up; faults in the middle of a session are not sampled.",
     [C], [("_perform_request", C), ("_poll", C), ("_report_queue_worker", C)], observe=["requests on the wire over virtual time", "event loop exception handler", "handlers"])

prop("P16", "The VTN registers exactly the VENs its operator accepts",
     "A registration request is answered with the VEN id and registration id the registration handler returned, with the requested profile and transport and the configured poll frequency; when the handler refuses, the answer is schema-valid and contains no registration id and no VEN id other than one the VEN itself supplied. When a VEN lookup is configured, any other request (except a registration query) from a VEN that the lookup does not know, or that has no registration id, is answered with a re-registration request and causes no other effect. A cancellation of registration reaches the cancellation handler once and its result is returned.",
     ["inputs", "configurations", "histories"], "all registration payloads, handler results (sync/async) and lookup states over time",
     "Tests check one accepted and one refused registration.",
     [RG, VS], [("create_party_registration", RG), ("handler ven_lookup gate", VS)], observe=["registration answers", "handler invocations"])

prop("P17", "The VEN follows the registration life cycle",
     "A VEN that starts queries, registers, offers its reports, asks for events and polls, in that order, using from then on the VEN id assigned by the VTN; it then polls at the interval the VTN asked for, at most 24 hours apart. A VEN whose first registration is refused never polls, sends reports or asks for events. When told to re-register it acknowledges, registers again and continues with the ids then assigned; after cancelling its registration, or being told to by the VTN, it sends no further poll, report or event request, and after being stopped it sends nothing.",
     ["histories", "schedules", "configurations"], "all sequences of VTN answers and poll frequencies",
     "Tests run single registrations for a few seconds of real time.",
     [C], [("run / create_party_registration / create_party_reregistration / cancel_party_registration / stop", C)],
     observe=["sequence of requests on the wire with virtual timestamps"])

prop("P18", "The VTN asks for exactly the reports its operator chose",
     "For each data point a VEN offers in a usage or status report, the report registration handler is consulted once with the VEN's resource, measurement, unit, scale and sampling limits (or once per report with the whole report when it takes the full form). The answer requests exactly the data points for which the handler returned a request, with their sampling and reporting intervals (when they differ within one report: the shortest sampling interval and one of the chosen reporting intervals), grouped under the report they were offered in, and no others; reports for which nothing was chosen or that are not supported are not requested. An invalid handler result for one data point never prevents the request of the others, and each request gets its own request id.",
     ["inputs", "configurations"], "all offered report sets and handler results, valid and invalid",
     "Tests offer one or two data points and accept all of them.",
     [RS, U], [("register_report", RS), ("validate_report_request_tuples", U)], observe=["oadrRegisterReport / oadrRegisteredReport bodies", "handler arguments"])

prop("P19", "Every measured value reaches its own report callback once",
     "Each (time, value) a VEN's report callback produces for a requested data point is delivered to the VTN callback registered for that data point of that request exactly once, unchanged and in the order produced, when no message is lost (values of a report that is still being gathered when it is cancelled may be dropped). Values are never delivered to the callback of another data point, request or VEN, and a report that combines several data points, in separate intervals or in one, splits into the right callbacks. An unsolicited or unknown report is acknowledged without running any data point's callback.",
     ["histories", "inputs", "schedules"], "all sets of reports, requests, sampling/reporting intervals, values and VENs",
     "Tests send a few values for one report in a few seconds.",
     [C, RS], [("update_report / _report_queue_worker", C), ("update_report", RS)],
     state=[("incomplete reports", "values held until the report is complete", C)], observe=["VEN report callbacks", "oadrUpdateReport bodies", "VTN callbacks"])

prop("P20", "Reports are sampled and sent on schedule until cancelled",
     "A requested data point is sampled at the requested sampling interval, and with incremental collection a report is sent each time one reporting interval's worth of samples of all its data points has been gathered, with full collection each time with the period it covers; the number of values per report matches the two intervals. Requests for reports, data points, units or sampling rates the VEN did not offer are never sampled and never disturb other requests. A cancellation by the VTN is acknowledged, and from then on no further sample is taken or sent for that report (a last report may still go out before the acknowledgement) while all other reports continue.",
     ["histories", "inputs", "schedules"], "all combinations of requested intervals that the scheduler can express, and cancellation times",
     "Tests wait for one or two reports with intervals of a few seconds.",
     [C, U], [("create_report / update_report / cancel_report", C), ("cron_config", U)], observe=["sampling times", "oadrUpdateReport times and sizes"])

prop("P21", "Over TLS only the certificate on record may speak for a VEN",
     "When the VTN serves TLS and has a VEN or fingerprint lookup, a request naming a VEN is acted on only if the connection's client certificate has the fingerprint on record for that VEN and, unless signature checking is switched off, the message is signed with that same certificate. Any other combination (another VEN's certificate, no record, missing or foreign signature, a request without VEN id other than a query or first registration) is refused (error answer, HTTP 403 or re-registration request), no handler or callback runs, and no VEN's events or registrations change. Legitimate requests of a VEN with the right certificate are always accepted, whatever refused attempts surround them.",
     ["inputs", "configurations", "histories"], "all pairings of connection certificate, signing certificate and claimed VEN id, over all message types",
     "Tests try one wrong fingerprint and one happy path.",
     [M, VS, U], [("authenticate_message", M), ("handler", VS)], observe=["TLS requests and answers", "handler invocations"])

prop("P22", "A signature covers exactly the content that is acted on",
     "With a fingerprint or VEN lookup configured and message signing in use, a message naming a VEN (or, at the VEN, any message of a VTN with a known fingerprint) is acted on only if what is acted on, and the timestamp and nonce that are checked, are exactly (canonically) what the holder of the expected certificate signed. Any alteration, substitution, relocation, duplication or re-signing of the signed content or of its replay protection is refused. Every message the library signs verifies, for any content and time.",
     ["inputs", "configurations"], "all tampered variants of signed messages, and all signed messages",
     "Tests flip one value in one message.",
     [M, U], [("validate_xml_signature", M), ("create_message signing", M)], observe=["acceptance or refusal of messages", "payload handed on"])

prop("P23", "A signed message is accepted once and only while fresh",
     "A correctly signed message is accepted at most once: repeating it, at any moment and however many other messages came between, is refused, also when its unsigned parts were changed. A message whose signed timestamp (UTC) is older than five seconds is refused, and one without timestamp or nonce is refused. Distinct fresh messages are never refused, even with equal timestamps or when many arrive together.",
     ["histories", "schedules"], "all sequences and timings of original, repeated and aged messages",
     "Tests replay one message once.",
     [M], [("_verify_replay_protect / _update_nonce_cache", M)], state=[("nonce cache", "recently accepted messages", M)], observe=["acceptance over virtual time"])

prop("P24", "Servers and clients in one process do not influence each other",
     "Several VTN servers and VEN clients created in one process each keep their own settings: VTN id, signing certificate, VEN lookup, signature checking, handlers, events, reports and poll method. Creating, configuring or using one never changes how another answers or which handler it calls, whatever the order of creation. A client's hooks see only its own traffic. Only the VTN hooks (openleadr.hooks), log settings and the memory of accepted nonces are shared by design.",
     ["configurations", "histories"], "all mixes and orders of instances with different settings",
     "Tests create one server per test process.",
     [S, VS, C, "openleadr/enums.py"], [("OpenADRServer.__init__", S), ("VTNService attributes", VS), ("add_report", C)], observe=["answers and handler calls of each instance"])

prop("P25", "Refused arguments leave no trace",
     "Adding an event with an invalid signal name, signal type, response requirement, market context that is not a text, interval list, callback signature or missing parts raises an error (for a raw event given as a dict: a missing descriptor, event id or period, or a wrong callback) and leaves the VEN's queue and later deliveries as they were; the same holds for report, hook and opt definitions and server handlers with invalid arguments, while a VEN refuses an unknown handler name by logging an error. Arguments that are acceptable are never refused, and unknown measurement names become custom units. Events added while the operator supplies their own poll handler are not queued.",
     ["inputs", "histories"], "all invalid and valid argument combinations between ordinary operations",
     "Tests try a few invalid values and do not look at the state left behind.",
     [S, C, OB], [("add_event / add_raw_event / add_handler", S), ("add_report / add_hook / create_opt", C)], observe=["exceptions", "later deliveries and registrations"])

prop("P26", "An operator-supplied poll handler decides the poll answers",
     "When the operator supplies a poll handler, each poll is answered with what it returned for that VEN: nothing gives an empty response, an event or list of events (objects or dicts) gives exactly those events, and a (message type, payload) pair gives that message. The handler runs once per poll with the polling VEN's id. Event requests and event responses go to the operator's own handlers with the right ids, and the events an event request handler returns are sent with the status their period dictates at that moment unless cancelled.",
     ["inputs", "configurations", "histories"], "all handler results (sync/async) for several VENs",
     "Tests return one event once.",
     [PS, ES], [("poll", PS), ("request_event / created_event external branch", ES)], observe=["poll answers", "handler invocations"])

prop("P27", "Opt schedules at the VEN reflect what the VTN acknowledged",
     "Creating an opt sends exactly one message with the given opt type, reason, targets, availability or event reference and ids, and reports the VTN's acknowledgement (its opt id) or failure to the caller without raising for any VTN answer or fault. Cancelling sends a message only for an opt the VEN created; the opt is forgotten exactly when the VTN acknowledged the cancellation.",
     ["inputs", "fault_sequences", "histories"], "all opt arguments, answers and faults, in sequences",
     "Tests create and cancel one opt with a mock answer.",
     [C, OB, M], [("create_opt / cancel_opt", C)], state=[("opts", "opts not cancelled", C)], observe=["oadrCreateOpt/oadrCancelOpt bodies", "return values"])

prop("P28", "Client hooks observe the traffic and cannot disturb it",
     "Each hook registered at the VEN runs once per message at its point with exactly what passed there: the text sent, the text received, the text before validation and before parsing, and the parsed type and payload. A hook that fails, is slow or is asynchronous does not change what is sent, received or returned, and the other hooks still run, in registration order. Content that is refused never reaches the later hook points.",
     ["inputs", "schedules", "fault_sequences"], "all hook sets, including failing ones, over all exchanges",
     "Tests register one hook per point and check that it was called.",
     [C], [("_execute_hooks / _perform_request", C)], observe=["hook arguments versus wire content"])

prop("P29", "Connections are served and verified as configured",
     "A VTN that is run serves its endpoints on the configured host, port and path prefix until it is stopped, and a new one can then take its place; with an HTTP certificate, key and CA file it serves only connections that present a certificate signed by that CA. A VEN using https sends a message only over a connection whose certificate is valid, signed by its CA file (or the system's) and, unless hostname checking is off, names the host; otherwise nothing is sent and the request fails like any other communication fault, without raising. A VEN given a certificate presents it and signs its messages with it, unless signing is switched off, with or without a CA file.",
     ["configurations", "histories"], "all combinations of server and client certificates, CA files, hostname checking, schemes, prefixes and life cycles",
     "Tests make a few connections with one matching set of certificates; wrong, expired, foreign and missing ones and stopped servers are not tried.",
     [S, C], [("TLS context, routes, run / stop", S), ("_ensure_client_session / _perform_request / stop", C)], observe=["real connections on the loopback interface", "bodies and client certificates received"])

prop("P30", "VTN hooks observe the traffic and cannot disturb it",
     "Each hook registered with openleadr.hooks runs once for each request at its point with what passed there: every body read (before_parse), every accepted message's type and payload (before_handle), the answer's type and payload when the handler did not fail (after_handle), and the text of every answer given, also refusals and errors (before_respond). Plain functions and coroutines can be registered at any time and run in registration order; one that fails, is slow or is asynchronous changes neither the answers, nor their timing, nor the handlers that run, nor the other hooks. Registering for a point that does not exist is refused.",
     ["inputs", "schedules", "configurations"], "all hook sets, including failing ones, over all requests, good and bad",
     "Tests do not use the VTN hooks.",
     ["openleadr/hooks.py", VS], [("register / call", "openleadr/hooks.py"), ("handler / handle_message", VS)], state=[("HOOKS", "hooks registered in this process", "openleadr/hooks.py")], observe=["hook arguments versus requests and answers"])

prop("P31", "A stopped VEN is quiet and leaves nothing behind",
     "Once a VEN's stop() has returned it sends no further message, starts no event handler or report callback (a start-up that was broken off may finish with what it had already received), and leaves no task, timer, scheduled job or open session of its own, whenever it was stopped: before it was started, while starting, in the middle of any exchange, from one of its own handlers, or a second time; stopping never raises. A start that fails because the registration is refused leaves nothing behind either. While it runs it keeps no more tasks than its work in progress needs.",
     ["schedules", "histories", "fault_sequences"], "all moments of stopping in all sessions",
     "Tests stop an idle client once and do not look at what remains.",
     [C], [("run / stop", C), ("_report_queue_worker", C), ("create_party_reregistration", C)], state=[("scheduler, report_queue_task, client_session, stopped", "what a running VEN holds", C)], observe=["messages, handler runs, tasks and timers after stop()"])

prop("P32", "One certificate has one fingerprint, wherever it is given",
     "The OpenADR fingerprint of a certificate is the last ten bytes of the SHA-256 digest of its DER form, as upper-case hexadecimal pairs with colons. For one certificate the library gives that same fingerprint everywhere: from utils.certificate_fingerprint for its PEM form as text or bytes in any notation that a TLS library reads (any line length or line ends, explanatory text, a private key or the other certificates of the chain beside it; the first certificate counts), from the command line tool, in the start-up notice of a VTN or VEN (none when not wanted; the domain notice names the certificate's common names), in the payload of the registration handler, in the comparison with a VEN's recorded fingerprint and in that of message signatures at VTN and VEN. Data without a certificate is refused. A fingerprint that differs in any way never passes, and a message that shows one certificate and is signed with another never passes for either.",
     ["inputs", "configurations"], "all certificates and notations, all places where a fingerprint is shown or compared",
     "Tests use three fixed certificate files of one form.",
     [U, M, S, C, "openleadr/fingerprint.py"], [("certificate_fingerprint", U), ("certificate_fingerprint_from_der", U), ("extract_pem_cert", U), ("get_cert_fingerprint_from_request", U), ("show_fingerprint", "openleadr/fingerprint.py")], observe=["fingerprints returned, printed and passed to handlers; accepted and refused messages"])

prop("P33", "Events and reports that break OpenADR's rules are corrected or refused",
     "When a message is built, an event whose signals have different total durations, a SIMPLE payload other than 0, 1, 2 or 3, an unknown measurement name or targets that contradict its targets by type is refused with a ValueError, and so is a report registration whose measurement has a wrong description, a unit that is not acceptable or no power attributes where they are needed. An active period that differs from the total duration of the signals, a SIMPLE current value other than 0 while the event is not active, a response requirement other than always or never, a missing creation time, targets given only by type, a report name without METADATA_ and a description in the wrong case are corrected, and exactly that field is altered; events and reports that obey the rules are not altered. The VTN refuses an event that can not be sent when it is added, with a ValueError, so that such an event never disturbs the delivery of others; events that are corrected keep their status and withdrawal in step with the period that the VEN is told.",
     ["inputs", "histories"], "all events and reports with any broken rule, alone and among others",
     "Tests check a few corrections with one fixed event each and do not look at what else changed or at the VTN's queue.",
     ["openleadr/preflight.py", S, U, ES], [("_preflight_oadrDistributeEvent", "openleadr/preflight.py"), ("_preflight_oadrRegisterReport", "openleadr/preflight.py"), ("add_raw_event", S), ("validate_report_measurement_dict", U)], observe=["messages built, errors raised, deliveries"])

with open(os.path.join(os.path.dirname(os.path.abspath(__file__)), "properties.jsonl"), "w") as f:
    for p in P:
        assert len(p["title"]) <= 80, p["title"]
        f.write(json.dumps(p, ensure_ascii=False) + "\n")
print(len(P))
