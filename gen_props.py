#!/usr/bin/env python3
"""Writes properties.jsonl (kept as data here so that statements are easy to review)."""
import json, os
P = []
def prop(id, title, statement, over, text, why, files, mech, observe, state=None):
    a = {"files": files, "mechanism": [{"name": n, "where": w} for n, w in mech],
         "observe_at": [observe], "hook_needed": None}
    if state:
        a["state"] = [{"name": n, "meaning": m, "where": w} for n, m, w in state]
    P.append({"id": id, "title": title, "statement": statement,
              "quantifier": {"over": over, "text": text},
              "why_tests_cant": why, "anchors": a})

REPL = ["eval/src/repl/repl.rs", "eval/src/repl/mod.rs", "eval/src/repl/repl_writer.rs", "eval/src/writer.rs"]

# ------------------------------------------------------------------ interactive session
prop("R01", "Each entered line is acted on exactly once, in order, at any input timing",
 "In the interactive session every line the user completes with Enter - the characters typed minus those erased with Backspace, or a recalled line - is acted on exactly once and in the order entered, and the session prints for it what evaluating that line alone would print. "
 "This does not depend on how the key bytes are grouped into reads, on the pauses between them, or on terminal resizes, interrupted system calls, partial terminal writes and keys without a function arriving in between.",
 ["schedules", "inputs", "fault_sequences"],
 "every key sequence, every split of its bytes over reads and of its timing over the 100 ms poll ticks, every thread schedule of the session and its signal thread, every placement of resizes, EINTR and short writes",
 "No test runs the session at all; a test could feed one byte timing of one key sequence, while the property is about all groupings, timings and interruptions of all sequences.",
 REPL, [("poll/read event loop with a 100 ms tick", "eval/src/repl/repl.rs Repl::run"), ("per-line dispatch", "eval/src/repl/mod.rs eval_loop")],
 "bytes the process writes to its terminal, against a line-editor model and the one-shot command's answers")
prop("R02", "Session variables always hold the last successful result and assignments",
 "During a session $result is the value of the most recent successfully evaluated line (0 before the first), and every variable is the value last successfully assigned to it; later lines see exactly these values. "
 "A line that fails, whether it cannot be parsed, names something unknown, divides by zero, overflows or is an invalid assignment (no value, several '=', a bad literal, or the name of a constant), reports one error and leaves $result, all variables and the rest of the session unchanged.",
 ["histories", "inputs"],
 "every history of successful and failing lines and assignments in every number type",
 "Unit tests evaluate single expressions in fresh contexts; none runs a history in which failures and assignments interleave.",
 REPL + ["prexel/src/context.rs", "prexel/src/evaluator.rs"],
 [("result variable update only after success", "eval/src/repl/mod.rs eval_loop"), ("variable insertion and constant-name rejection", "prexel/src/context.rs DefaultContext::set_variable")],
 "answers printed for later lines", [("$result", "value of the last successful line", "eval/src/repl/mod.rs")])
prop("R03", "History recall returns exactly the remembered lines, newest first",
 "The session remembers the last N non-blank lines entered (N is 100 unless --history sets it), not storing a line equal to the one stored just before, and forgetting the oldest first. "
 "Up replaces the pending text by the next older remembered line and stays at the oldest, Down by the next newer one and past the newest by an empty line, and entering a non-blank line restarts recall from the newest; a recalled line can be edited and entered like typed text and recall never changes what is remembered.",
 ["histories", "inputs", "configurations"],
 "every sequence of entered lines, Up/Down presses and edits, every history size including 0 and 1, every timing of the keys",
 "No test drives recall; correctness depends on the whole history of pushes, evictions and cursor moves.",
 ["eval/src/repl/repl.rs", "eval/src/collections/carray.rs"],
 [("bounded history buffer", "eval/src/collections/carray.rs CircularArray"), ("history cursor", "eval/src/repl/repl.rs Repl::run")],
 "the line shown on the terminal and the results of entering recalled lines", [("history, history_cursor", "remembered lines and recall position", "eval/src/repl/repl.rs")])
prop("R04", "A waiting session shows all its output and exactly the pending line",
 "Whenever the interactive session waits for input, all output it has produced has reached the terminal, and the terminal's current line consists of exactly the prompt followed by the pending text, with the cursor right behind it. "
 "This holds after typing, erasing, recalling and entering, after errors and results, for all ways the terminal accepts output in pieces; with colours disabled no colour sequence is ever emitted.",
 ["schedules", "inputs", "fault_sequences"],
 "every key sequence and timing, every pattern of partial and interrupted writes on the terminal, with and without colours",
 "No test looks at terminal output, and buffering faults only show at particular interleavings of output and waiting.",
 REPL + ["eval/src/style.rs"],
 [("flush at the end of every loop turn", "eval/src/repl/repl.rs Repl::run"), ("line rewrite", "eval/src/repl/repl_writer.rs rewrite")],
 "a terminal emulator fed with the bytes written so far, inspected at every blocking wait")
prop("R05", "Interrupt, Esc and exit end the session promptly and cleanly",
 "An interrupt signal, the Esc key or the line exit ends the interactive session at whatever moment it comes: within one second of time (for an interrupt also when no key is ever pressed) the process ends with status 0, having written its farewell exactly once as the last thing on the terminal. "
 "No line whose Enter comes after the session was told to end is acted on, and nothing but these three ends a session whose terminal works.",
 ["schedules", "crash_points", "fault_sequences"],
 "every instant at which the interrupt can be delivered (idle, mid-line, during evaluation or output, repeated), every schedule of signal thread and session thread",
 "Tests cannot place a signal at a chosen instruction or choose the thread schedule; none exists for the session.",
 ["eval/src/repl/repl.rs", "eval/src/repl/mod.rs"],
 [("running flag cleared from the signal thread, polled every 100 ms", "eval/src/repl/repl.rs Repl::run")],
 "process exit, simulated time of exit, last terminal output")
prop("R06", "No input or expression can crash or wedge the interactive session",
 "Whatever bytes arrive - unknown, partial or overlong escape sequences, control characters, text in any script, arbitrary expressions in any number type - the interactive session neither dies nor stops responding. "
 "Once the disturbing input stops and any key sequence it started is completed, a plainly typed line is answered correctly within one second of time.",
 ["inputs", "fault_sequences", "histories"],
 "every byte sequence on the terminal, every expression text in every number type, every history size, combined with resizes, EINTR and short writes",
 "The tests cover a few well-formed expressions and never feed hostile input to a running session.",
 REPL + ["prexel/src/tokenizer.rs", "prexel/src/evaluator.rs", "prexel/src/ops/mod.rs", "prexel/src/decimal/mod.rs", "prexel/src/binary/mod.rs", "prexel/src/complex"],
 [("errors reported per line, loop continues", "eval/src/repl/mod.rs eval_loop")],
 "process status and answers to later lines")
prop("R07", "A command that reports success has delivered its whole output",
 "When a one-shot command (evaluating an expression, or listing constants, operators or functions) exits with status 0, its complete answer has been accepted by the operating system on its output stream, byte for byte and once, however the stream splits, interrupts or delays the writes. "
 "If the stream refuses data (disk full, I/O error, closed pipe) the command ends with a nonzero status or a signal instead of reporting success.",
 ["fault_sequences", "crash_points"],
 "every pattern of short and interrupted writes, and a write error at every possible position of the output, for every command and number type",
 "No test runs the commands against a failing output stream.",
 ["eval/src/main.rs", "eval/src/writer.rs", "eval/src/list.rs", "eval/src/eval_expr.rs"],
 [("output through print!", "eval/src/writer.rs ColorWriter::write")],
 "bytes accepted on file descriptors 1 and 2, exit status")

prop("R08", "The answer of a command depends on its command line alone",
 "Two processes started with the same arguments print the same bytes on the same streams and end in the same way, whatever the random seed of the process, the clock, the scheduling, interrupted or split writes, data waiting on the input, a resize of the terminal, or the time zone, language and other unrelated variables of the environment. Only expressions that draw random numbers may answer differently.",
 ["schedules", "configurations", "histories"],
 "every seed of the random device (and so of every hash table), every clock reading and environment, for every command, expression and number type",
 "Tests run in one process with one set of hash seeds and compare single names, never two whole outputs.",
 ["prexel/src/context.rs", "eval/src/list.rs", "eval/src/eval_expr.rs", "eval/src/main.rs"],
 [("contexts keep their names in the order of registration", "prexel/src/context.rs Map"), ("listings", "eval/src/list.rs list_with_context")],
 "bytes accepted on file descriptors 1 and 2, exit status")

# ------------------------------------------------------------------ server
SRV = ["prexel-server/src/main.rs", "prexel-server/src/middlewares/rate_limiter.rs"]
EV = ["prexel-server/src/endpoints/mod.rs" , "prexel-server/src/services/evaluator.rs", "prexel-server/src/models/mod.rs"]
prop("S01", "No client gets more than 100 answers per minute",
 "A client, identified by its network address, whose requests are handled one after another gets at most 100 requests served in any window of 60 seconds that starts with its first counted request, over however many connections it spreads them and whichever worker handles them; every further request in that window is refused with status 429 and is not evaluated. "
 "When requests of one client are in flight at the same time, at most as many extra requests as were simultaneously in flight can be served in the window, not counting those handled before every request in flight at the window's begin was answered.",
 ["schedules", "histories", "configurations", "fault_sequences"],
 "every arrival pattern of requests and connections, every assignment to workers, every thread schedule, every number of workers, every request kind",
 "There are no server tests; the bound depends on time, connection and worker assignment and on interleavings between workers.",
 SRV, [("fixed-window counter", "prexel-server/src/main.rs get_rate_limit_middleware"), ("client identity", "prexel-server/src/middlewares/rate_limiter.rs get_rate_limit_identifier")],
 "HTTP status and x-ratelimit headers of every response", [("counter store", "client to remaining requests with expiry", "prexel-server/src/main.rs")])
prop("S02", "A client within its quota is never refused, whatever others do",
 "A client that has been served fewer than 100 requests since its current window began is never refused for excess use, no matter how many requests other clients send, how their connections behave, or how many refused requests it sent itself; and once 60 seconds have passed since its window began it is served again. "
 "The remaining-requests header counts down by one per handled request from 99 to 0 within a window for a client that sends one request at a time, and a refusal states how long to wait.",
 ["schedules", "histories", "fault_sequences"],
 "every mixture of clients, arrival times around window edges, every schedule and worker count",
 "No server tests; isolation between clients and recovery after time passes need a clock and many clients.",
 SRV, [("per-client key and expiry", "prexel-server/src/main.rs")], "HTTP status, x-ratelimit headers, retry-after")
prop("S03", "Every response is a function of its own request alone",
 "The answer to an evaluation or listing request (status and body) depends only on that request's method, path, query and body: the same request always gets the same answer, whatever other requests were handled before or are handled at the same time, on whichever worker, connection and process instance. "
 "In particular values, variables, errors and number types of one request never show in the answer to another.",
 ["schedules", "histories", "configurations"],
 "every set of concurrent requests and their interleaving over connections and workers, every earlier history, every process hash seed",
 "No server tests; leaks and instance-dependent answers show only under concurrency, history, or several process instances.",
 EV + ["prexel-server/src/services/info.rs"],
 [("fresh context per request", "prexel-server/src/services/evaluator.rs")], "response status and body compared with the same request alone on a fresh server, and a reference evaluator")
prop("S04", "Each request gets exactly one answer, in order, however its bytes travel",
 "On every connection each complete request receives exactly one complete response and the responses come in the order of the requests, for every split of the request bytes into network segments, pipelining, delays between segments below the server's time limits, and any partial or refused writes on the server side. "
 "Requests cut short by the client closing, resetting or half-closing its connection get no success answer and never affect other connections.",
 ["schedules", "inputs", "fault_sequences"],
 "every segmentation, delay, pipelining depth, reset point and backpressure pattern on every connection, every schedule",
 "No server tests; only one segmentation of one request could be tested at a time.",
 EV + ["prexel-server/src/main.rs"], [("HTTP service configuration and handlers", "prexel-server/src/main.rs")], "byte stream of every connection parsed as HTTP")
prop("S05", "Invalid requests are answered with an error object and change nothing",
 "A request to evaluate whose body is not valid text, not valid JSON, lacks the expression or has a field of the wrong type is answered with status 400 and a JSON object with null result and a non-empty error; unknown paths or methods get a 4xx; an expression that cannot be evaluated, or comes with a variable that cannot be set (no number of the type, or the name of a constant), gets status 200 with a null result and non-empty error, also when only the result was asked for. "
 "However many such requests come, truncated or corrupted anywhere, well-formed requests sent afterwards or beside them get their correct answers.",
 ["inputs", "fault_sequences", "histories"],
 "every corruption or truncation point of every request, every mixture with valid requests",
 "No server tests at all.",
 EV, [("body decoding with typed error", "prexel-server/src/endpoints/mod.rs")], "HTTP status and JSON of responses")
prop("S06", "One failing evaluation never takes the service down for other clients",
 "Whatever expression, number type and variables a client sends - including ones on which evaluation runs into an internal failure - every other connection's requests, before, during and after, are answered correctly within ten seconds of time, and the sender's own next request on a new connection is answered too. "
 "The sender itself gets a response, not a silently dropped connection.",
 ["inputs", "schedules", "fault_sequences"],
 "every position of failing requests among concurrent good ones, every worker count and schedule",
 "No server tests; the damage depends on which worker holds which connections when the failure happens.",
 EV + ["prexel-server/src/main.rs"], [("evaluation in the handler", "prexel-server/src/endpoints/mod.rs")], "responses of all connections, process liveness")
prop("S07", "Slow, silent or dead clients do not delay others",
 "While any number of clients stall in the middle of a request, never read their responses, stay idle, reset or vanish, every well-behaved client's request is answered within ten seconds of time of its last byte, and no descriptors stay occupied by clients that closed their connections. "
 "A connection left silent mid-request is eventually closed or answered by the server instead of being kept for ever.",
 ["fault_sequences", "schedules"],
 "every number and placement of stalled, half-closed, reset and non-reading connections, with every worker count and schedule",
 "No server tests; needs many misbehaving peers and minutes of time.",
 ["prexel-server/src/main.rs"], [("asynchronous server with time limits", "prexel-server/src/main.rs main")], "response times in simulated time, open descriptors")
prop("S08", "Termination signals stop the server cleanly",
 "After a termination request (SIGTERM, SIGINT or SIGQUIT) the process ends within 40 seconds of time; with SIGTERM, requests whose bytes had completely arrived before are answered completely first. "
 "No accepted request is answered with a truncated response by an orderly shutdown, and the port setting given at start decides where the server listens (8000 when absent or not a port number); a server that cannot listen there ends at once with a failure status.",
 ["crash_points", "schedules", "configurations"],
 "every instant of the signal relative to connections, partial requests and responses, every schedule, every port setting",
 "No server tests; needs signals at chosen instants.",
 ["prexel-server/src/main.rs"], [("HttpServer run/bind", "prexel-server/src/main.rs main")], "process exit and connection byte streams")
prop("S09", "Clients without a usable network address keep one identity through a cookie",
 "When the network address of a connection cannot be determined, the server assigns the client an identity in a cookie on its first response; a client that sends the cookie back is counted under that identity and is not issued another, a client that does not is counted as new. "
 "A client whose address is known is never issued or affected by such a cookie.",
 ["fault_sequences", "histories", "configurations"],
 "every pattern of address-lookup failures over connections, every cookie echo behaviour",
 "No server tests; the address lookup never fails in ordinary runs.",
 SRV, [("cookie fallback", "prexel-server/src/main.rs wrap_fn"), ("identifier order", "prexel-server/src/middlewares/rate_limiter.rs")], "set-cookie and x-ratelimit headers")

# ------------------------------------------------------------------ library
LIB = ["prexel/src/evaluator.rs", "prexel/src/function.rs", "prexel/src/context.rs"]
prop("L01", "A failing user function aborts the evaluation cleanly",
 "If a user-supplied function or operator returns an error at any of its calls, the evaluation stops there: it returns exactly that error, calls no further user function, and yields no value. "
 "If it panics - or anything else the user supplied does: a context asked for a name, an operator asked for its precedence, a number type read from text or copied - the panic reaches the caller; in both cases the evaluator, its variables, constants and functions are as before, and every later evaluation gives what it would have given without the failure.",
 ["crash_points", "fault_sequences", "histories"],
 "every expression over user-supplied functions, every call index at which the fault strikes, every history of evaluations before and after",
 "Unit tests use functions that succeed; none injects a failure at a chosen call inside a larger expression and then keeps using the evaluator.",
 LIB, [("error propagation in the stack machine", "prexel/src/evaluator.rs")], "returned error, recorded calls, later results")
prop("L02", "Every function and operator written is applied exactly once to its operands",
 "Evaluating an expression applies every function and operator written in it exactly once, each to the values of its own operands in written order, operands before the operation that uses them, and the result is the value of the outermost operation - with whatever side effects, nested evaluations or re-entrant use of other evaluators the user's functions perform. "
 "An expression that is rejected as malformed reports an error, not a value.",
 ["programs", "histories"],
 "every expression tree over user-defined functions, prefix, postfix and infix operators of all precedences and associativities, every re-entrant use",
 "Unit tests compare values of a few expressions with pure operators, where double, missing or reordered application cannot be seen.",
 LIB + ["prexel/src/tokenizer.rs"], [("infix to postfix conversion and stack evaluation", "prexel/src/evaluator.rs")], "call log of instrumented user functions against the generating expression tree")
prop("L03", "The latest accepted registration of a name counts; refused ones leave no trace",
 "After any history of setting variables, adding constants, functions and operators (with or without further names), each name resolves to what the last accepted registration for it established, names are found regardless of letter case where that is offered, and names of constants cannot be reassigned as variables. "
 "A registration that is refused changes nothing: every name resolves as it did before, and later registrations and evaluations work.",
 ["histories", "fault_sequences"],
 "every history of registrations and lookups, including conflicting names, further names that conflict midway, and refused registrations (by error or panic)",
 "Unit tests register one or two names in fresh contexts and never continue after a refused registration.",
 ["prexel/src/context.rs", "prexel/src/ignore_case_str.rs"], [("case-insensitive ordered maps with aliases", "prexel/src/context.rs DefaultContext")], "lookups and evaluations after every step against a model map")
prop("L04", "Random numbers always lie in the requested range and are drawn per call",
 "Every evaluation of the random-number function gives a value in the requested range - from 0 up to but excluding 1, up to but excluding the given bound, or between the two given bounds - for every number type and whatever the random source returns, including its extreme values; a bad range is reported as an error. "
 "Each occurrence in an expression is drawn anew, and the whole range can occur as finely as a double tells its values apart.",
 ["inputs", "fault_sequences"],
 "every sequence of values of the random source, including all-zero and all-one words, and every range",
 "Tests can only sample the real random source, which practically never returns the extreme values.",
 ["prexel/src/ops/mod.rs", "prexel/src/decimal/mod.rs", "prexel/src/complex"], [("random function per number type", "prexel/src/ops/mod.rs RandFunction")], "results under a controlled random source")
prop("L05", "Evaluators do not influence each other",
 "Any number of evaluators used in one process, created, used and dropped in any interleaving and on any threads, each behave exactly as they would alone: same results, same errors, same random-source consumption, and listings in the same order. "
 "Re-evaluating the same expression in an unchanged context gives the same answer every time.",
 ["schedules", "histories", "configurations"],
 "every interleaving of the operations of several evaluators of mixed number types over threads, every hash seed of the process",
 "Unit tests use one evaluator at a time, with one hash seed per run.",
 ["prexel/src/context.rs", "prexel/src/evaluator.rs", "prexel/src/tokenizer.rs"], [("all state owned by the evaluator", "prexel/src/evaluator.rs Evaluator")], "operation results of interleaved against solo runs")

# ------------------------------------------------------------------ pure properties (not simulation targets)
def pure(id, title, statement, why, files, mech, observe):
    prop(id, title, statement, ["inputs", "programs"], "every expression or literal", why, files, mech, observe)
pure("P01", "Precedence and associativity decide the grouping of operators",
 "An expression evaluates to the value of the tree given by the operators' precedences and associativities, with unary operators, implicit multiplication and groupings as documented.",
 "Tests sample a few dozen expressions.", ["prexel/src/evaluator.rs", "prexel/src/tokenizer.rs"], [("shunting yard", "prexel/src/evaluator.rs")], "evaluation results")
pure("P02", "Checked number types never wrap silently",
 "In the checked number types every arithmetic result that does not fit is reported as an error; a returned value is the mathematically exact one.",
 "Tests sample a few overflows.", ["prexel/src/ops/mod.rs", "prexel/src/binary/mod.rs"], [("checked operations", "prexel/src/ops/mod.rs")], "evaluation results")
pure("P03", "Printed numbers read back as the same value",
 "Printing a result and reading it back as a literal of the same number type gives the same value.",
 "Tests sample a few literals.", ["prexel/src/complex", "prexel/src/binary/mod.rs"], [("Display/FromStr", "prexel/src/complex")], "round trips")
pure("P04", "Decimal and complex functions are accurate",
 "Each mathematical function returns the true value of the function within the precision of the number type, or an error outside its domain.",
 "Tests sample a few points per function.", ["prexel/src/decimal/mod.rs", "prexel/src/complex"], [("series and formulas", "prexel/src/decimal")], "evaluation results")
pure("P05", "Tokenizing loses and invents nothing",
 "The tokens of an expression, concatenated, are the expression without its whitespace, and each is classified by the context's definitions.",
 "Tests sample a few expressions.", ["prexel/src/tokenizer.rs", "prexel/src/utils/splitter"], [("splitter rules", "prexel/src/utils/splitter")], "token lists")
pure("P06", "Everything listed can be used",
 "Every constant, operator and function in a listing, and each of its further names, can be used in an expression of that number type, and everything usable is listed.",
 "Tests do not enumerate the listings.", ["eval/src/list.rs", "prexel-server/src/services/info.rs"], [("listing of the context's maps", "eval/src/list.rs")], "listings and evaluations")

with open(os.path.join(os.path.dirname(os.path.abspath(__file__)), "properties.jsonl"), "w") as f:
    for p in P:
        assert len(p["title"]) <= 80, p["title"]
        f.write(json.dumps(p, ensure_ascii=False) + "\n")
