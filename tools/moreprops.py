p("C27", "A client's connection has a defined life: opened once, shared, closed on Close",
  "The first call or Connect of a TCP, RTU or ASCII client opens exactly one connection, also when several are made at once, and all further calls use it, exception responses and further Connects included; IsConnected tells exactly whether there is one. "
  "Connect fails if the other end cannot be reached and leaves the client usable. Close ends the connection for the other end too and may be repeated; the next call or Connect opens exactly one new connection. After a failed exchange the client may keep or drop its connection.",
  ["histories", "schedules", "fault_sequences"],
  "all sequences of calls (answered, refused, garbled, unanswered), Connect, Close, IsConnected, disappearance and return of the other end, and simultaneous first uses, on three transports",
  "no test counts connections, closes and reuses a client, or starts a client from several goroutines",
  ["client_tcp.go", "client_rtu.go", "client_ascii.go", "serial.go", "client.go"],
  [("connect, Close, IsConnected", "client_tcp.go, serial.go"), ("connection made by a call", "client_*.go: Send*")],
  "stateful model-based property testing against a played server that counts connections",
  "on serial lines connections are counted as open descriptors of the terminal")

p("C28", "Timeouts, intervals and port settings are the configured ones or the defaults",
  "The timeout of TCP and serial clients, the read and write timeout of the server, the connect timeout, reconnect interval and keep-alive settings of the reverse-connecting server and the address, speed, data bits, stop bits and parity of a serial client are those last configured by option or setter, each independent of the order of the others and of options meant for another transport. "
  "Without configuration they are the documented defaults (TCP client 1 s; serial /dev/ttyS0, 19200 8 1 N, 1 s; server read 60 s, write 1 s; reverse: connect 15 s, reconnect 60 s, keep alive 30 s); a timeout of 0 means none, and an unsupported serial setting makes Connect fail.",
  ["configurations"],
  "all orders and repetitions of the options and setters with values from 0 to seconds, all transports",
  "the tests apply each option once and do not look at its effect",
  ["client_option.go", "client_tcp.go", "serial.go", "server_tcp.go", "server_tcp_special.go", "modbus.go"],
  [("options", "client_option.go"), ("setters", "server_tcp.go, server_tcp_special.go"), ("defaults", "modbus.go, serial.go: constants")],
  "property testing of generated configurations: the time until the effect shows, measured at a silent peer, a full listener or a client that takes nothing, and the attributes of a pseudo terminal",
  "lower limits are exact, upper limits generous; data bits and parity are not visible on a pseudo terminal and are compared in the provider's Config")

p("C29", "Nothing is left behind: goroutines, descriptors and memory do not accumulate",
  "When a connection of the server has ended (in whatever way), a client has been closed or failed to connect, or a TCP or reverse-connecting server has been closed, the goroutines it ran end and the file descriptors it held are closed. "
  "Between these, the number of requests, exceptions, connections, refusals, losses and reconnections made in the past does not add to the goroutines, descriptors or memory in use.",
  ["histories", "fault_sequences"],
  "all histories of connections, requests, faults, ends and restarts of servers, clients on three transports and reverse-connecting servers",
  "no test looks at what the process still holds",
  ["server_tcp.go", "server_tcp_session.go", "server_tcp_special.go", "client_tcp.go", "serial.go", "buffer.go"],
  [("session end", "server_tcp_session.go: running"), ("accept loop and Close", "server_tcp.go"), ("run loop and Close", "server_tcp_special.go"), ("frame pool", "buffer.go")],
  "property testing of generated histories with resource accounting of the process as invariant",
  "goroutines are recognised by their stacks; memory growth below 32 bytes per request is not seen")

p("C30", "A stuck connection, handler, callback or call delays no other",
  "While a client of the server pauses within a frame, takes no responses or stays idle, while a function handler, a callback of a reverse-connecting server or an application's Range does not return, or while a call of one client waits for its answer, all other connections (old and new), units, register accesses, changes to the set of units, clients and reverse-connecting servers work without delay, and handlers and callbacks may themselves use the API of their server and units. "
  "Once released, the stuck ones go on as if nothing had happened: late requests are answered and no response is lost.",
  ["schedules", "histories", "fault_sequences"],
  "all combinations of stuck connections, handlers, callbacks and calls with the work of others, for as long as the stuck ones stay stuck",
  "in the tests nothing is ever stuck and there is one connection at a time",
  ["server_tcp.go", "server_tcp_session.go", "server_tcp_special.go", "function.go", "register.go", "client_tcp.go", "client_rtu.go", "client_ascii.go"],
  [("one goroutine per session", "server_tcp.go: ListenAndServe"), ("set of units", "function.go: serverCommon"), ("locks of the banks", "register.go"), ("callbacks", "server_tcp_special.go: run")],
  "property testing of generated scenarios in which stuck parties are held at a gate while a model judges the others",
  "no delay means within 8 s while the stuck ones stay stuck; more than 1000 descriptors are not tried")

p("C31", "Servers, clients and units in one process are independent instances",
  "Several servers (listening and reverse-connecting), each with its own set of units and its own function handlers, serve only these, also when their units have the same addresses; adding, deleting, registering, starting and closing at one affects no other, and a unit added to two servers has the same registers at both. Each server keeps its own settings: timeouts, TLS trust, callbacks. "
  "Several clients used at once, and several clients made on one provider, each keep their own limits, timeout, log setting and answers.",
  ["histories", "schedules", "configurations"],
  "all sets of up to 4 servers and 10 clients of all kinds with histories of requests, changes, closes and restarts",
  "the tests use one server and one client at a time",
  ["function.go", "register.go", "buffer.go", "client.go", "client_tcp.go", "client_rtu.go", "client_ascii.go", "server_tcp.go", "server_tcp_special.go"],
  [("handlers of a server", "function.go: newServerCommon"), ("frame pools", "buffer.go"), ("limits of a client", "client.go: NewClient")],
  "model-based property testing with one model per instance, and clients at once on distinguishable slaves under the race detector",
  "interleavings are those of the scheduler")

p("C32", "A shortage of file descriptors passes without lasting harm",
  "While the process can open no further file descriptor, a TCP server goes on serving its connections, ListenAndServe does not return and Close works; clients that connect meanwhile are accepted and served within seconds once there are descriptors again. "
  "A client's Connect or call that needs a connection fails with an error, one that has a connection works, and both work again afterwards; a reverse-connecting server with auto reconnect goes on trying and then serves, without it becomes closed and can be started again.",
  ["fault_sequences", "histories"],
  "all sequences of up to 5 shortages of 0 to 2.6 s with connections, requests, losses, closes and restarts in them, servers, clients of three transports and reverse-connecting servers",
  "no test makes an accept, a dial or the opening of a port fail for a while",
  ["server_tcp.go", "server_tcp_special.go", "client_tcp.go", "serial.go"],
  [("retry of failed accepts", "server_tcp.go: ListenAndServe"), ("dial", "client_tcp.go: connect; server_tcp_special.go: run"), ("opening the port", "serial.go: connect")],
  "fault-injection property testing: the soft limit of descriptors is set below the open ones for generated phases; a register model judges all answers",
  "seconds means within 8 s (confirmed with three times that)")
