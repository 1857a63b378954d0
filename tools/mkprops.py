#!/usr/bin/env python3
"""writes properties.jsonl and MANIFEST.json from the table below"""
import json, os
here = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
P = []
def p(id, title, statement, over, text, why, files, mech, technique, note):
    P.append(dict(id=id, title=title, statement=statement, over=over, text=text, why=why, files=files,
                  mech=mech, technique=technique, note=note))

p("C01", "The server executes every valid request exactly as Modbus defines it",
  "For every well-formed request that lies within a unit's address ranges and the protocol's quantity limits (read coils, discrete inputs, holding and input registers; write single/multiple coils and registers; mask write; read/write multiple registers), a TCP server answers with exactly the response the protocol defines, echoing the transaction id and unit. "
  "Afterwards every coil, discrete input, input register and holding register of every unit has the value the request history (and the application's own register accesses) implies, bit- and byte-exact: nothing else has changed.",
  ["inputs", "histories", "configurations"],
  "all register layouts (bank starts 0..65535, sizes 0..65535), all contents, all sequences of valid requests over one or several connections to several units mixed with local register accesses",
  "the tests call the ten function handlers with one or two fixed requests on one small layout whose banks start at 0 and hold at most 10 entries; alignment, start offset, quantity and history are never varied",
  ["function.go", "register.go", "server_tcp_session.go"],
  [("function handlers", "function.go: func* handlers"), ("bit and word banks", "register.go: getBits, setBits, Read*/Write*/MaskWriteHolding"), ("request dispatch and reply", "server_tcp_session.go: frameHandler")],
  "model-based property testing of request histories against a reference Modbus server",
  "random histories against an independent model; every reply and the complete contents of all banks are compared; no claim beyond the generated cases")

p("C02", "Invalid requests get the right exception and change nothing",
  "A TCP server answers a request of an unsupported function with exception 1, one whose quantity, coil value, byte count or length is illegal with exception 3, and one that touches any address outside the unit's range with exception 2 (a request with both faults may get either code); the reply carries the request's transaction id, its unit and its function code with the top bit set. "
  "Such a request changes no register of any unit, not even in part (a refused read/write-multiple writes nothing), and the connection keeps working.",
  ["inputs", "histories", "configurations"],
  "all function codes, all addresses and quantities 0..65535 (including ranges that end at or wrap past 65535), all data lengths 0..252, all layouts, mixed with valid requests",
  "the tests sample one out-of-range request per function on one layout; boundary arithmetic at 16 bits, overlong or truncated data and partial effects are not sampled",
  ["function.go", "register.go", "server_tcp_session.go"],
  [("validation in the handlers", "function.go"), ("range checks", "register.go: inRange"), ("exception replies", "server_tcp_session.go: frameHandler")],
  "model-based property testing with boundary-biased and damaged requests against a reference server",
  "as C01; the model yields the set of acceptable outcomes where the protocol leaves the order of checks open")

p("C03", "No byte stream can crash or wedge the TCP server or corrupt its registers",
  "Whatever bytes a client sends to the TCP server, in whatever pieces, and however it ends its connection, the process does not crash, other connections are served correctly meanwhile and afterwards new connections are accepted and served. "
  "Registers change only through well-formed write requests in the stream.",
  ["inputs", "fault_sequences"],
  "all byte streams: garbage, headers with any length/protocol field, cut, hollow or oversized frames, unknown functions; on several connections at once; ended by half-close, close, reset or silence",
  "no test sends anything but well-formed frames to a session",
  ["server_tcp_session.go", "server_tcp.go", "function.go"],
  [("length checks before reading the body", "server_tcp_session.go: running"), ("recover around the handlers", "server_tcp_session.go: frameHandler")],
  "grammar-based fuzzing of live sessions in a child process, with innocent bystander connections as oracle",
  "crashes of the whole process are caught because cases run in a child; register contents are compared unless the stream contains something a server may rightly take for a write")

p("C04", "Each request is answered once, in order, however the stream is cut",
  "A TCP connection that carries any sequence of complete requests, pipelined and cut into pieces at any byte, yields exactly one response per request to an existing unit, in request order, each with its own transaction id and unit and the right contents. "
  "Requests to units the server does not have and frames of another protocol id get no response and do not disturb what follows.",
  ["inputs", "histories", "schedules"],
  "all request sequences (valid, illegal, absent units, other protocols, 2..260 byte frames), all segmentations, several connections at once",
  "no test sends two frames in one segment, a frame in pieces, or uses several connections",
  ["server_tcp_session.go", "server_tcp.go"],
  [("frame assembly", "server_tcp_session.go: running"), ("reply header", "server_tcp_session.go: frameHandler")],
  "model-based property testing of pipelined, segmented request streams",
  "the complete reply stream is compared byte for byte with the model's; segmentation is by separate writes with pauses")

p("C05", "The register API of a unit obeys its address ranges exactly",
  "Every method of a unit's register bank (reads and writes of coils, discrete inputs, input and holding registers as bits, bytes or words, single or multiple, and mask write) succeeds exactly when the whole address range lies inside the bank and the supplied values fit the quantity, and then reads or writes exactly those bits or words. "
  "Otherwise it returns a Modbus exception error with code 2, changes nothing and never panics; the reported bank starts and sizes are those it was created with.",
  ["inputs", "histories", "configurations"],
  "all layouts including banks that end at address 65535 or are empty, all addresses and quantities, value slices too short, exact or too long, all call sequences",
  "the tests use one layout starting at 0 and a handful of ranges",
  ["register.go"],
  [("inRange", "register.go"), ("getBits/setBits", "register.go"), ("read and write methods", "register.go")],
  "stateful model-based property testing of the node API",
  "all methods are compared with a bit-array model, whole contents after each call")

p("C06", "Concurrent accesses to a unit are atomic and lose no update",
  "When any number of goroutines and TCP connections read and write one unit at the same time, a multi-coil or multi-register read (coils, discrete inputs, input or holding registers) never shows a mixture of two block writes, single-bit writes to different bits of one byte never undo each other, and mask writes of different bits to one register are all kept. A read/write multiple request is one transaction: what it reads of the registers it writes is what it wrote. "
  "Units can be added, removed and listed meanwhile, and there is no data race.",
  ["schedules", "histories"],
  "all interleavings of local and remote reads, writes and mask writes by 2-6 goroutines on shared bytes, words and blocks, and of unit additions and removals",
  "no test is concurrent",
  ["register.go", "function.go", "server_tcp_session.go"],
  [("the node's lock", "register.go: rw"), ("units in a sync.Map", "function.go: serverCommon")],
  "randomised concurrency testing with invariants (ownership, block patterns, mask bits) under the race detector",
  "schedules are those of the Go scheduler with generated yields; races are found on executed paths only")

p("C07", "Clients send exactly the frame a call describes, or nothing",
  "For every legal call of a client method on TCP, RTU or ASCII, exactly one frame is sent, and its bytes are the protocol's encoding of the call: unit, function, big-endian address/quantity/values, byte count, and MBAP header, CRC16 or upper-case hex with LRC, with the transaction id differing from call to call on TCP. "
  "A call with an illegal argument (quantity outside the protocol's limits, values that do not fit the quantity) returns an error and puts nothing on the wire.",
  ["inputs", "histories"],
  "all 15 request methods, all arguments legal and illegal, all three transports, sequences of calls",
  "the tests compare a few frames produced by mocks; the boundaries of quantities and value lengths are not covered per transport",
  ["client.go", "client_tcp.go", "client_rtu.go", "client_ascii.go", "buffer.go", "crc.go", "lrc.go"],
  [("argument checks", "client.go"), ("frame encoders", "client_tcp.go, client_rtu.go, client_ascii.go: encode*Frame")],
  "property testing against an independent encoder, over loopback TCP and pseudo terminals",
  "the played peer sees the real bytes on a socket or pty")

for n, tr, extra, f in (("C08", "TCP", "another transaction id, protocol id or unit, a length field that does not fit", "client_tcp.go"),
                  ("C09", "RTU", "another unit, a wrong CRC", "client_rtu.go"),
                  ("C10", "ASCII", "another unit, a wrong LRC, non-hex or missing characters, missing delimiters", "client_ascii.go")):
    p(n, f"A {tr} client returns data only from the matching, valid response",
      f"A client call over {tr} succeeds if it is answered by the correct response to its request, and then returns exactly the data in it. "
      f"If the response differs in anything the protocol fixes ({extra}, another function, a byte count or size that does not fit the requested quantity, an echoed address, quantity, value or mask that is not the request's, a FIFO count that contradicts its size, cut off or missing data), the call returns an error and no data, without panicking or hanging beyond its timeouts.",
      ["inputs", "fault_sequences"],
      f"all 15 request methods over {tr}, all correct responses and all damaged ones: wrong fields, bit errors, truncation, surplus, random bytes",
      "the tests feed a mock provider with a few wrong responses and check framing on single fixed frames; no call is ever combined with a damaged frame of the real transport",
      ["client.go", f] + ([] if tr == "TCP" else ["serial.go"]),
      [("response checks per function", "client.go"), ("frame decoding and verification", f + ": decode*Frame, verify*"), ("reading the frame", f + ": SendRawFrame")],
      "property testing with mutated responses against a validity predicate",
      "the oracle decides from the bytes sent whether they are the valid response; deadlines are confirmed with three times the budget")

p("C11", "Exception responses surface as ExceptionError with their code",
  "On each transport and for each client method, an exception response to the request (its function code with the top bit set) of any exception code makes the call return an error that is an ExceptionError carrying exactly that code, whose text contains the code, and no data. "
  "The next call on the same client works normally.",
  ["inputs", "histories"],
  "all methods, all exception codes 0..255, all three transports, sequences of exceptions and normal exchanges",
  "the tests check one exception code on one transport and the text of one error",
  ["client.go", "client_tcp.go", "client_rtu.go", "client_ascii.go", "buffer.go", "modbus.go"],
  [("responseError", "buffer.go"), ("verify", "client_rtu.go, client_tcp.go"), ("ExceptionError", "modbus.go")],
  "property testing of scripted exchanges on all transports",
  "the peer is played over loopback TCP and pseudo terminals")

p("C12", "Client and server of this library agree end to end",
  "Every value written through a client of this library to its TCP server is what the server's registers hold and what any client of this library then reads back, as bits, bytes and 16-bit words alike, for all request methods the server supports. "
  "Calls beyond a unit's ranges return the server's exception code; sessions of any length (past 65536 requests), reconnects and several clients make no difference.",
  ["inputs", "histories", "configurations"],
  "all call sequences of one or two clients against a live server with generated units, local changes in between, transaction ids past the 16-bit wrap",
  "one test connects client and server and performs a few reads; values are hardly compared, nothing at the limits, no long session",
  ["client.go", "client_tcp.go", "server_tcp_session.go", "function.go", "register.go"],
  [("client methods", "client.go"), ("transaction ids", "client_tcp.go"), ("server", "server_tcp_session.go, function.go")],
  "stateful end-to-end property testing against a register model",
  "client and server are run together over loopback; both sides are compared with the model, not with each other only")

p("C13", "Responses that arrive in pieces are put together",
  "On TCP, RTU and ASCII, a correct response (normal or exception) that is delivered in any number of pieces, cut anywhere and with pauses shorter than the client's timeout between them, gives the same result as when it is delivered at once. "
  "This holds for the first and every later exchange on the connection.",
  ["inputs", "schedules"],
  "all methods and response sizes, all ways to cut the response, pauses in between",
  "in the tests responses arrive in one piece",
  ["client_tcp.go", "client_rtu.go", "client_ascii.go"],
  [("reading until the frame is complete", "client_tcp.go, client_rtu.go, client_ascii.go: SendRawFrame"), ("length of RTU responses", "client_rtu.go: calculateResponseLength")],
  "metamorphic property testing (segmentation invariance)",
  "pauses stay far below the timeout; loaded machines are handled by confirmation with larger scale")

p("C14", "CRC16 and LRC are computed correctly for every input",
  "The exported CRC16 equals the Modbus CRC (polynomial 0xA001, initial value 0xFFFF) of every byte string, and the LRC equals the two's complement of the byte sum, however the bytes are pushed and after any reset. "
  "Both are right from their very first use, also when that use is concurrent, and without a data race.",
  ["inputs", "schedules"],
  "all byte strings of length 0..2000, all ways to push them in pieces, concurrent first use",
  "the tests check a few fixed vectors",
  ["crc.go", "lrc.go"],
  [("table and loop", "crc.go"), ("accumulator", "lrc.go")],
  "differential property testing against bitwise references, plus algebraic laws, under the race detector",
  "lengths up to 2000 bytes; the first-use race is tried in fresh processes")

p("C15", "Goroutines sharing one client always get their own responses",
  "When any number of goroutines use one client (TCP, RTU or ASCII) at the same time, requests are sent one after another, each call returns the response to its own request (never another call's data) and every call returns. "
  "This also holds while others call Close and Connect (a call may then fail, but never returns wrong data), and there is no data race.",
  ["schedules", "histories"],
  "2-6 goroutines, all methods, all interleavings including Close and Connect, three transports, real and played servers",
  "no test uses a client from two goroutines",
  ["client_tcp.go", "client_rtu.go", "client_ascii.go", "serial.go", "buffer.go"],
  [("provider mutex", "client_tcp.go, serial.go: mu"), ("frame pool", "buffer.go"), ("transaction ids", "client_tcp.go")],
  "randomised concurrency testing with self-identifying register values under the race detector",
  "schedules are those of the Go scheduler; races are found on executed paths only")

p("C16", "After any fault of the line a client recovers and never returns stale data",
  "Whatever happens to an exchange of a TCP client (no answer, late answer, connection closed or reset, header or body cut off, impossible length, answers to other requests, duplicates, unsolicited frames, server gone for a while), every call returns within its configured timeouts, and never with data that is not the answer to that very call. "
  "Once the server is reachable and behaves again the client works without being recreated, at the latest from the second call on; serial clients likewise time out and recover after silence or truncation and after the line hung up.",
  ["fault_sequences", "histories"],
  "all sequences of 1-5 faults, of 15 TCP kinds and the serial kinds, interleaved with calls of all methods, then healthy exchanges",
  "the tests know one broken connection and never continue after a fault",
  ["client_tcp.go", "client_rtu.go", "client_ascii.go", "serial.go"],
  [("dropping a broken connection", "client_tcp.go: SendRawFrame"), ("deadlines", "client_tcp.go: SetDeadline"), ("port handling", "serial.go")],
  "fault-injection property testing with a scripted peer; every answer has unique contents",
  "late answers on serial lines (which have no transaction ids) are outside the claim; time limits are confirmed at three times the budget")

p("C17", "The TCP server can be closed and restarted at any time",
  "Close of a TCP server that accepts connections returns promptly whatever its clients are doing (idle, stuck within a frame, busy, not reading, gone), also when called several times or concurrently; when it has returned, ListenAndServe has returned, all connections have ended, no request is executed any more and the address can be listened on at once by the same server, which keeps its units and register values. "
  "ListenAndServe on a busy or invalid address returns an error and the server stays usable; a connection that is silent longer than the read timeout is ended, others are not.",
  ["histories", "schedules", "fault_sequences"],
  "1-4 start/use/close cycles on the same or another address with up to 6 clients in every state, single or concurrent Close, short read timeouts",
  "one test starts a server, connects and closes it",
  ["server_tcp.go", "server_tcp_session.go"],
  [("Close and ListenAndServe", "server_tcp.go"), ("session loop and its deadlines", "server_tcp_session.go: running")],
  "stateful lifecycle testing with played clients under the race detector",
  "promptness limits are far above what is needed and confirmed with three times the budget; Close before the server accepts connections is outside the claim")

p("C18", "User function handlers are called and answered faithfully",
  "A handler registered for a function code (new or built-in) is called for each such request, with the addressed unit and exactly the request's data, and the response is the function code followed by exactly the data it returned (0 to 252 bytes, also when it returns its argument, changed or not, or part of it, or part of a buffer it keeps, which the server leaves as it is). "
  "If it returns an error the reply is an exception with the code of the ExceptionError in the error (also when wrapped), else code 4; the handler registered last counts, handlers may be registered at any time (while requests are served, or by a handler), registering nil changes nothing, other functions are not affected, and a handler that panics does not take the server or the connection down.",
  ["inputs", "histories", "programs"],
  "all function codes, request data of any length, returned data of any length and aliasing, all errors, sequences mixed with built-in functions",
  "no test registers a handler and sends a request to it",
  ["function.go", "server_tcp_session.go"],
  [("handler table", "function.go: RegisterFunctionHandler"), ("dispatch, exceptions, reply", "server_tcp_session.go: frameHandler")],
  "property testing with generated handlers over live connections",
  "replies longer than 252 bytes and the reply of a panicking handler are outside the claim")

p("C19", "The reverse-connecting server connects, serves, reconnects and stops",
  "After Start the reverse-connecting server dials its remote end, calls the connect handler once per connection, serves requests over it like a TCP server, reports IsConnected while it does and calls the connection-lost handler exactly once per established connection, by when it no longer counts as connected; with auto reconnect it dials again after a loss or failure, without it never again, and a connection refused by the connect handler is closed unserved and never counts as connected. "
  "The keep-alive handler runs periodically while connected and not afterwards (so not while the connection-lost handler runs). Close at any time (also right after Start or twice) ends connection, dialling and waiting, IsClosed then becomes true at once, however long the reconnect interval, and the server can be started again with its units, also right after Close.",
  ["histories", "schedules", "fault_sequences"],
  "all sequences of start, connection, loss (four ways), refusal, absent remote end, close in every state and restart; all settings",
  "the tests start it and look at flags; no remote end ever sends a request or drops the connection",
  ["server_tcp_special.go", "server_tcp_session.go"],
  [("connection loop", "server_tcp_special.go: run"), ("status and cancel", "server_tcp_special.go: Start, Close")],
  "stateful lifecycle testing against a played remote end under the race detector",
  "time limits are confirmed with three times the budget; at once means within these limits")

p("C20", "Remote addresses and TLS settings are honoured as documented",
  "AddRemoteServer accepts ':port' (host 127.0.0.1), 'host:port', 'tcp://', 'ssl://', 'tls://' and 'tcps://' forms, connects to exactly that host and port, plain for the first three and over TLS with the configured settings for the others; unparsable addresses are refused and change nothing, and Start without an address fails. "
  "With TLS no request is served unless the remote certificate passes the configured verification (trust, name), a configured client certificate is presented, and unknown schemes or plain peers never lead to a served connection; over an accepted connection requests are served correctly.",
  ["configurations", "inputs"],
  "all address forms and hosts on loopback, all TLS set-ups (trusted, untrusted, wrong name, mutual, plain peer)",
  "the tests add one address and never open a TLS connection",
  ["server_tcp_special.go"],
  [("AddRemoteServer", "server_tcp_special.go"), ("openConnection", "server_tcp_special.go")],
  "property testing over generated addresses and TLS configurations with a played remote end",
  "host names that need a resolver are outside the claim (no network)")

p("C21", "Raw requests are sent verbatim and size limits hold",
  "Send and SendPdu of every transport send the given function code and data framed exactly (any function, 1 to 253 PDU bytes) and return the function code and data of the matching response; SendRawFrame sends the given bytes unchanged and returns the response frame as received. "
  "PDUs larger than 253 bytes (or an empty PDU for SendPdu) are refused with an error and nothing is sent, and no input of any size panics.",
  ["inputs"],
  "all PDUs of 0..300 bytes, all raw frames, exceptions and answers of somebody else, three transports",
  "the tests call the raw functions against mocks with one or two sizes",
  ["client_tcp.go", "client_rtu.go", "client_ascii.go"],
  [("size checks", "encode*Frame, SendPdu"), ("SendRawFrame", "client_*.go")],
  "property testing at the limits of the frame sizes against a played peer",
  "on RTU only functions whose response length the protocol defines are used; ASCII accepts up to 252 data bytes like the others")

p("C22", "Unit address limits of a client are enforced for every method",
  "A client refuses a read (also read/write multiple and FIFO) to a unit below its minimum or above its maximum, and a write to a unit above its maximum, with an error and without sending anything; by default the limits are 1 and 247, and the options change exactly the limit they name. "
  "Calls to units within the limits, and writes to unit 0, are sent to exactly that unit.",
  ["inputs", "configurations"],
  "all units 0..255, all limits, all methods, three transports",
  "the tests try one unit too high per method with default limits",
  ["client.go"],
  [("limit checks", "client.go: each method"), ("options", "client.go: WithAddressMin, WithAddressMax")],
  "property testing of all methods around generated limits",
  "writes to units 1..min-1 are not specified")

p("C23", "Logging is transparent and obeys its switch",
  "With logging off (the default) a client or server logs nothing; switched on, each frame sent and each frame received by a client is reported to the configured log provider with exactly its bytes in hex, errors and debug messages go to the provider's respective method, and a nil provider leaves the current one in place. "
  "Servers report each request and reply of a registered unit (and a handler's panic) alike, by default on the standard output; LogMode may be called at any time, without a data race, and holds from the next frame on, also on connections that are open already. "
  "The log setting never changes what is sent, returned or answered.",
  ["configurations", "histories"],
  "exchanges of all kinds with six log settings on three transports, and histories of servers and clients whose log is switched on and off",
  "the tests check that calling the logger does not crash",
  ["log.go", "client_option.go", "client_tcp.go", "client_rtu.go", "client_ascii.go", "server_tcp_session.go"],
  [("logger", "log.go"), ("options", "client_option.go")],
  "metamorphic property testing (log on against log off) with a recording provider and a captured standard output, under the race detector",
  "only the bytes of frames are looked for in messages, not their wording")

p("C24", "Data handed out or taken in is never shared with later operations",
  "Results returned by register reads and client calls are never changed by later operations of the library, and overwriting them (up to their capacity) never changes registers or later results. "
  "Values passed as arguments (also raw frames and PDUs) are not modified, nor is what lies behind them in their arrays, and changing them after the call has no effect on registers.",
  ["histories", "inputs"],
  "all sequences of reads and writes of a unit and of client calls on three transports with results and arguments kept and scribbled on",
  "no test keeps a result across a later operation",
  ["register.go", "buffer.go", "client_tcp.go", "client_rtu.go", "client_ascii.go", "client.go"],
  [("copies in reads", "register.go"), ("frame pool", "buffer.go")],
  "metamorphic property testing (aliasing detection by kept and overwritten buffers)",
  "no claim for the data passed to user handlers")

p("C25", "The set of units behaves as a map from unit address to unit",
  "AddNodes makes a unit answer at its address (replacing the one there), DeleteNode and DeleteAllNode remove exactly the named unit or all, GetNode returns the unit or an error, GetNodeList and Range visit every present unit exactly once (Range stops when told to), for the TCP and the reverse-connecting server alike. "
  "Over TCP, present units answer from their own registers and absent ones give no answer, immediately after each change.",
  ["histories"],
  "all sequences of operations on units 0..255 of both server kinds, with questions over TCP in between",
  "the tests add and delete two fixed units and count them",
  ["function.go", "server_tcp_session.go"],
  [("serverCommon", "function.go")],
  "stateful model-based property testing against a map",
  "unit addresses are not changed while registered")

p("C26", "Requests that do not arrive completely are never executed or answered",
  "If a connection ends or stays silent at any byte inside a request, that request changes no register and gets no response, while all complete requests before it are executed and answered. "
  "Other connections are not affected.",
  ["crash_points", "inputs", "fault_sequences"],
  "every prefix length of every request, after any complete requests, connection ended by half-close, close, reset or silence",
  "no test cuts a request off",
  ["server_tcp_session.go"],
  [("frame assembly", "server_tcp_session.go: running")],
  "property testing over truncation points of generated request streams",
  "silence is ended by the case, not by the 60 s timeout")

exec(open(os.path.join(here, "tools", "moreprops.py")).read()) if os.path.exists(os.path.join(here, "tools", "moreprops.py")) else None

with open(os.path.join(here, "properties.jsonl"), "w") as f:
    for x in P:
        assert len(x["title"]) <= 80, x["title"]
        f.write(json.dumps(dict(id=x["id"], title=x["title"], statement=x["statement"],
            quantifier=dict(over=x["over"], text=x["text"]), why_tests_cant=x["why"],
            anchors=dict(files=x["files"], mechanism=[dict(name=a, where=b) for a, b in x["mech"]]))) + "\n")
man = dict(version=1, setup_cmd="./setup.sh", checks=[dict(property=x["id"], quick_cmd=f"./check.sh {x['id']} quick",
    thorough_cmd=f"./check.sh {x['id']} thorough", evidence_file=f"evidence/{x['id']}.json", technique=x["technique"],
    level="exploration", level_note=x["note"]) for x in P], not_applicable=[],
    notes="one Go harness (harness/) with its own generator, shrinker and replay; see DESIGN.md. No hooks in /repo.")
json.dump(man, open(os.path.join(here, "MANIFEST.json"), "w"), indent=1)
open(os.path.join(here, "MANIFEST.json"), "a").write("\n")
