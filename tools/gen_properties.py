#!/usr/bin/env python3
"""Writes properties.jsonl. The table below is the single source of the property texts."""
import json, os
P = []
def prop(id, title, statement, over, text, why, files, mechanism, observe):
    assert len(title) <= 80, (id, len(title))
    P.append(dict(id=id, title=title, statement=statement,
        quantifier=dict(over=over, text=text), why_tests_cant=why,
        anchors=dict(files=files, mechanism=[dict(name=n, where=w) for n, w in mechanism], observe_at=observe)))

ST="src/transport/stream/transport.rs"; UT="src/transport/unix/transport.rs"
MSG="src/message.rs"; EN="src/transport/endian.rs"; ERR="src/error.rs"
RT="src/request_tracker.rs"; PE="src/peer.rs"; RQ="src/request.rs"; PH="src/peer_handle.rs"
LI="src/listener.rs"; SM="src/transport/stream/mod.rs"; UM="src/transport/unix/mod.rs"; TM="src/transport/mod.rs"

prop("C01","Header encoding and decoding agree with the documented layout",
 "For every header and every endianness, encoding writes the message type, the request ID and the service ID as three 32-bit integers at byte offsets 0, 4 and 8 in the chosen endianness, and decoding reads the same fields from the same offsets with the same endianness. The five message types have the documented numbers (request 0, response 1, requester update 2, responder update 3, stream 4) in both directions, and decoding any other number gives an error. Each message constructor makes a message of the type it is named for with exactly the IDs it was given, and an error response always carries the reserved service ID -1.",
 ["inputs","configurations"],"every message type, request ID, service ID (2^32 each), all three endianness settings, every undocumented type number",
 "Unit tests read and write a few constants; they never cross-check all offsets, types and endianness settings against the protocol document.",
 [MSG,EN],[("MessageHeader::encode/decode, MessageType::from_u32, Endian::read/write_*",MSG+", "+EN)],["encoded bytes","decoded MessageHeader"])
prop("C02","Stream frames announce exactly the bytes that follow",
 "On byte-stream transports every message is sent as a 32-bit length equal to 12 plus the body length, in the configured endianness, followed by the 12-byte header and the body and nothing else. The receiver uses the same endianness and takes the body to be exactly the announced length minus 12 bytes. The length never wraps around, whatever size limit is configured.",
 ["inputs","configurations"],"every body length and configured limit up to u32::MAX, every endianness",
 "Tests only send small bodies with the default configuration; lengths near 2^32 cannot be sampled.",
 [ST],[("StreamWriteHalf::poll_write_msg / StreamReadHalf::poll_read_msg",ST)],["bytes on the stream","parsed body length"])
prop("C03","An interrupted stream write resumes exactly where it stopped",
 "However the socket splits a message into partial writes and pending results, the bytes put on the stream are exactly the frame of that message, each byte once and in order. Success is reported only after the last byte was accepted, and the next message starts with a fresh frame.",
 ["schedules","inputs"],"every sequence of short writes and pending results for every header and body",
 "Tests write to sockets with enough buffer space, so a write is never split.",
 [ST],[("StreamWriteHalf::poll_write_msg write position",ST)],["bytes accepted by the stream"])
prop("C04","An interrupted stream read neither loses, repeats nor mixes bytes",
 "However the incoming bytes are split over reads and pending results, a message is delivered only once all its announced bytes were read, and it holds exactly those bytes. Bytes read before a pending result are kept, later reads continue directly behind them and never run beyond the current message, and after delivery the next message starts from a clean state.",
 ["schedules","inputs"],"every split of the incoming byte stream into reads, every position of a pending result",
 "Tests read messages that arrive in one piece.",
 [ST],[("StreamReadHalf::poll_read_msg read position and buffers",ST)],["messages returned by the read half"])
prop("C05","Body size limits are enforced in both directions without truncation",
 "A message whose body is larger than the configured write limit is refused with a non-fatal error before any byte of it is written, and one within the limit is not refused for its size. A received message whose body is larger than the configured read limit is reported as an error: it is never delivered, whole or truncated, and no body buffer is allocated for an announced size that was not checked against the limit first.",
 ["inputs","configurations"],"every body size, every configured limit, both transports",
 "No test sends a body near or over a limit.",
 [ST,UT,ERR],[("check_payload_too_large in the poll functions",ST+", "+UT)],["result of sending and receiving"])
prop("C06","No bytes from the remote peer can make the receive path panic or wrap",
 "Whatever bytes and lengths the remote peer sends, receiving a message on either transport ends with a message, an error or a pending result. It never panics and never computes with a length that wrapped around.",
 ["inputs","fault_sequences"],"every byte sequence or datagram a remote peer can send, including frames shorter than a header and unknown message types",
 "Tests only receive well-formed messages.",
 [ST,UT,MSG],[("length checks before arithmetic and slicing",ST+", "+UT)],["result of reading a message"])
prop("C07","Errors are classified as fatal exactly when the transport is unusable",
 "A transport error is reported as non-fatal only if no byte of the failed outgoing message was handed to the socket, or the failed incoming message was consumed completely. A message that is refused because it exceeds a limit, before anything was written or after its whole datagram was consumed, is non-fatal: the transport is still usable. Every socket I/O error and every malformed stream frame is reported as fatal, and the fatal flag and the inner error survive unchanged until they are observed.",
 ["fault_sequences","inputs"],"every error exit of every transport read and write function",
 "Tests do not inject I/O errors or malformed frames.",
 [TM,ST,UT],[("TransportError::new_fatal/new_non_fatal at each error exit",ST+", "+UT)],["TransportError::is_fatal"])
prop("C08","File descriptors travel with their message, are never leaked and are limited",
 "On Unix seqpacket transports a message, its header and all its file descriptors are sent in one datagram, and a message with more descriptors than the configured write limit is refused with a non-fatal error before anything is sent. Every descriptor the kernel hands over with an incoming datagram is immediately owned, so that it is either delivered in the body of exactly that message, in order, or closed, on every path including all error paths. A datagram with more descriptors than the configured read limit is not delivered.",
 ["inputs","fault_sequences","configurations"],"every number of descriptors, every limit, every error path of the receive function",
 "The one transport test sends two descriptors with default limits on the success path only.",
 [UT],[("wrapping of ancillary data into FileDesc, ancillary size limits",UT)],["body.fds of received messages","open descriptors of the process"])
prop("C09","Poll functions never lose a wakeup",
 "Every hand-written poll function returns pending only when the last thing it waited for was polled with the caller's own context in the same call and returned pending. A ready result of an inner poll is never discarded by returning pending.",
 ["schedules"],"every poll function of the crate, every sequence of ready and pending results of the inner sources",
 "A lost wakeup shows only under specific timing; the tests run over sockets that are almost always ready.",
 [ST,UT,TM,"src/util/accept.rs","src/util/select.rs"],[("ready! and Poll matches in the poll functions","src/transport, src/util")],["tasks that never wake"])
prop("C10","A sent request gets an ID that no open sent request uses",
 "For every history, a newly sent request gets an ID that is not in use by any other open sent request, and its registration never replaces another one. The search for a free ID advances past used ones and wraps around at the end of the ID space, and when it gives up the caller gets an error instead of a shared ID.",
 ["histories"],"every history of sending requests and closing them, including ID wrap-around after 2^32 requests",
 "Wrap-around and long-lived requests need billions of requests to reach.",
 [RT],[("RequestTracker::allocate_sent_request",RT)],["request_id of sent request handles"])
prop("C11","Incoming messages are routed to the request they belong to",
 "Every incoming response and responder update goes to the open sent request with that ID, every requester update goes to the open received request with that ID, and requests and stream messages go to the peer handle. A response or update for which no such request is open gives an unknown-request error at the peer handle and disturbs no open request.",
 ["histories","inputs"],"every sequence of incoming messages with arbitrary types and IDs, including equal IDs in both directions",
 "Tests use one request at a time and never the same ID in both directions.",
 [RT,PE],[("RequestTracker::process_incoming_*",RT)],["recv_update","recv_response","recv_message"])
prop("C12","A response closes its request, after being delivered",
 "When a response arrives, it is put in the request's queue, the request is closed and its ID becomes free, in one step, for every history. Explicit removal of a request and a successfully written response close the request in the same way: its ID becomes free, its write handles refuse to send, and its reader is woken.",
 ["histories","schedules"],"every history of requests and responses, in both directions",
 "Tests cover one response in one order.",
 [RT,PE],[("process_incoming_response, remove_*_request, send_raw_message",RT+", "+PE)],["closed handles","reuse of IDs"])
prop("C13","Nothing is sent for a request after it was closed",
 "Once a request is closed because its response was received or sent, no update or second response for it is put on the wire, from any clone of its write handle, even if it was queued before the request was closed. The sender gets an error instead.",
 ["schedules","histories"],"every interleaving of send operations on cloned write handles with the peer loop that sends or receives the response",
 "The window between queuing and writing a message depends on the scheduler; the test only sends after the close is visible.",
 [RQ,PE,RT],[("closed flag of request handles, command loop",RQ+", "+PE)],["messages on the wire","result of send_update/send_response"])
prop("C14","Received messages are handed to the application in order, once, none lost",
 "Every message read from the transport for which there is a receiver (a stream message, a new request, a message of an open request) is put in the channel of that receiver exactly once. The messages of a request are returned to the user in arrival order and exactly once, and an update met while waiting for the response, or a response met while waiting for an update, stays available to the matching receive call. After the final response or a close the handle reports the end instead of waiting forever.",
 ["histories","schedules"],"every interleaving of receive calls for updates and responses with arriving messages, including cancelled receive calls",
 "Tests peek once in each direction.",
 [RQ],[("SentRequestHandle::recv_message and its peek buffer, ReceivedRequestHandle::recv_update",RQ)],["recv_update","recv_response"])
prop("C15","A duplicate incoming request ID is an error that disturbs nothing",
 "An incoming request with the ID of a received request that is still open is reported as an error and never replaces or closes the open one, whose updates and response keep working. An incoming request with an ID that is free is always accepted, and the handle it produces carries the ID and service ID of the request and is the one that updates for it reach.",
 ["histories","inputs"],"every history of incoming requests, including ID reuse",
 "No test sends two requests with the same ID.",
 [RT],[("RequestTracker::register_received_request",RT)],["recv_message"])
prop("C16","A request that was not sent, or not handed to the caller, stays closed",
 "Sending a request registers it before it is written, so that no reply can come too early. If writing fails or the caller is gone, the request is unregistered again and its ID becomes free, on every path; if writing succeeds the caller gets the handle and the request stays registered.",
 ["fault_sequences","schedules"],"every failure of the transport write, every cancellation of the caller",
 "Tests never fail a write and never cancel a send.",
 [PE],[("CommandLoop::send_request",PE)],["request tracker state","result of send_request"])
prop("C17","Every send operation reports the outcome of its own write",
 "Each accepted send command leads to one answer to its caller: success only after the transport accepted the complete message, otherwise the error of that write. Messages are written in the order they were queued, each at most once, unaltered and with the message type of the operation.",
 ["schedules","fault_sequences"],"every send operation of every handle, every outcome of the transport write",
 "Tests only see successful writes.",
 [PE,PH,RQ],[("CommandLoop::send_request/send_raw_message",PE)],["result of send_*"])
prop("C18","A failed write of a response leaves the request open",
 "If a response cannot be written for a non-fatal reason, such as a body over the size limit, the received request stays open, so that the application can still answer it, for example with an error response. A request is closed by its own response only, and only after that response was written.",
 ["fault_sequences","inputs"],"every non-fatal failure of writing a response or update",
 "No test makes a write fail.",
 [PE],[("CommandLoop::send_raw_message",PE)],["send_response after a failed send_response"])
prop("C20","The peer loop runs until the last read and write handle is gone",
 "For every history of cloning and dropping handles, the peer loop counts exactly the live write handles: creating or cloning one registers it, dropping one unregisters it exactly once, and the read handle likewise. The loop stops when both kinds are gone and not earlier, close handles do not keep it alive, and an explicit close from any handle stops it.",
 ["histories","schedules"],"every history of clone, split and drop of peer handles",
 "Tests create and drop a handful of handles in one order.",
 [PE,PH],[("Register/Unregister commands, Clone and Drop impls",PH+", "+PE)],["termination of Peer::run"])
prop("C21","Fatal transport errors stop the peer, non-fatal ones do not, all are reported",
 "A fatal read error stops the read loop after the error was queued for the user, and a fatal write error stops the command loop after its caller was told; a non-fatal error stops neither. Every read error and every protocol error of an incoming message is delivered through the peer read handle, and no error is swallowed while that handle exists.",
 ["fault_sequences"],"every error a transport can return, at every point",
 "Tests do not inject transport errors.",
 [PE],[("ReadLoop::run, CommandLoop::write_message",PE)],["recv_message","termination of Peer::run"])
prop("C22","Requests nobody can receive are answered with an error",
 "When the peer read handle is gone, every incoming request is answered with an error response carrying its own request ID and its ID becomes free again, while stream messages are dropped without effect. If that answer cannot be sent the loop stops.",
 ["histories"],"every incoming message after the read handle was dropped, including requests that reuse an ID",
 "The one test of this checks a single request.",
 [PE],[("CommandLoop::process_incoming_message",PE)],["messages on the wire"])
prop("C23","Reading is never held up by users or by writing",
 "The task that reads from the transport waits for nothing except the transport, and the loop that processes commands waits for nothing except the next command and the transport write. No user code, lock or bounded queue can stall the delivery of messages of other requests.",
 ["schedules"],"every suspension point of the peer loops",
 "Head-of-line blocking shows only with slow consumers under load.",
 [PE,RT],[("unbounded channels, ReadLoop::run, CommandLoop::run",PE)],["await points in the peer task"])
prop("C24","When the peer loop ends, every waiting operation ends with an error",
 "When the peer loop has ended for any reason, every pending or later receive call on a peer handle and every pending or later send returns a connection-aborted error, and waiting request handles report the end. The peer object owns the only long-lived ends of these channels, and no handle keeps its own channel open.",
 ["histories","schedules"],"every pending operation at the moment the loop ends, on every exit of the loop",
 "Tests do not wait on handles across a shutdown in all states.",
 [PE,PH,RQ],[("ownership of channel ends by Peer and RequestTracker",PE+", "+RT)],["result of pending operations"])
prop("C30","One bad connection does not stop the server",
 "While the listening socket itself works, the accept loop keeps going: a failure that concerns only a single accepted connection, such as a client that is already gone, does not end it. Every accepted connection is handed to the user's task with its own transport, configuration and peer information, which is what the operating system reports for that connection's own socket, and an error of the listening socket is returned.",
 ["fault_sequences"],"every failure after accepting a connection, at every iteration",
 "No test makes a connection fail between accept and use.",
 [LI],[("Listener::run and Listener::accept",LI)],["termination of Listener::run"])
prop("C25","Handles report and use the identity of their own request and peer",
 "Every request handle, its write handle and their clones report the request ID and service ID of the request they were made for, and every message sent through one of them carries that request ID. All handles of a peer, split, cloned or made for closing, act on that peer, and two handles are reported as belonging to the same peer exactly when they do.",
 ["histories","inputs"],"every request ID and service ID, every kind of handle, every way of making one handle from another",
 "Tests use one or two requests with small IDs and never ask a clone or a write handle for its identity.",
 [RQ,PH,PE],[("request_id, service_id, write_handle, clone, same_peer",RQ+", "+PH)],["IDs reported by handles","messages written"])
prop("C26","Library values copy, compare, order and hash as the values they are",
 "A clone of a message header, message type, configuration, endianness, connection information, body or introspection definition has every part of the original. Where such values can be compared, two are equal exactly if all their parts are, the order is total and agrees with equality and with every comparison operator, and equal values hash the same.",
 ["inputs"],"every pair and triple of values of every value type of the crate",
 "Tests compare a few headers for equality; the laws relate all pairs and triples of values.",
 [MSG,EN,"src/transport/stream/config.rs","src/transport/unix/config.rs","src/introspection.rs"],[("Clone, PartialEq, Ord, Hash of the value types",MSG+", "+EN)],["results of clone, comparison and hashing"])
prop("C31","Binding a Unix listener never deletes anything but a socket",
 "Binding a Unix listener removes an existing file only after that file itself (not what a symbolic link points to) was found to be a socket, at exactly the address that is then bound. No other code of the library removes files.",
 ["inputs","configurations"],"every address, every kind of existing file",
 "No test binds over existing files.",
 [SM,UM],[("Bind impls of Unix listeners",SM+", "+UM)],["file system"])
prop("C32","Configuration values reach the half of the transport they are meant for",
 "Splitting a transport gives the read half the configured read limits and the write half the configured write limits, and both the configured endianness, for every transport and configuration. Creating a transport by connecting, accepting or wrapping uses the configuration that was passed, and the documented default applies otherwise.",
 ["configurations"],"every configuration with different read and write values, every transport",
 "Tests use the default configuration, in which read and write values are equal.",
 [SM,UM,"src/transport/stream/config.rs","src/transport/unix/config.rs"],[("Transport::split, IntoTransport, Connect, Listener::accept",SM+", "+UM)],["limits applied by a transport"])
prop("C33","Connecting and binding reach exactly the requested address",
 "Connecting asks the operating system exactly once to connect to the address as given, and success gives a transport on that very socket with the given configuration; binding does the same for listeners. Errors of the operating system are returned unchanged. Connecting a peer also returns the information of that connection, spawns exactly one peer on it, and spawns nothing when connecting fails.",
 ["inputs","configurations","fault_sequences"],"every address and configuration, success and failure of every step",
 "Tests connect to one address with the default configuration and never see a failing connect.",
 [SM,UM,PE,LI],[("Connect and Bind impls, Peer::connect, Listener::bind",SM+", "+UM+", "+PE+", "+LI)],["result of connect and bind"])
prop("C34","Direct access to a wrapped stream, socket or transport gives exactly that one",
 "The accessors of transports, their halves and peers give the very stream, socket or transport they wrap: a shared reference, an exclusive reference from the functions ending in _mut, and the object itself from those starting with into_. They change nothing. A transport wraps the stream or socket and the configuration it was made with, and the default configuration if it was made without one.",
 ["inputs","histories"],"every transport, half and peer in every state, every wrapped object and configuration",
 "No test uses the accessors.",
 [ST,UT,PE],[("stream, stream_mut, into_stream, socket, socket_mut, into_socket, transport, transport_mut, new",ST+", "+UT+", "+PE)],["results of the accessors"])
prop("C40","Generated client and server use the same IDs and types",
 "For every interface, the service ID and body type that generated code uses to send a request, response, update or stream message are the declared ones, and the receiving side decodes that same ID to that same type and variant. Success responses carry the declared service ID of their service.",
 ["programs","inputs"],"every interface definition accepted by the macro, represented by a witness interface that contains every kind of item, with distinct IDs and types",
 "The macro tests compile one interface and compare metadata; they exchange no message of each kind.",
 ["macros/src/interface/generate/services.rs","macros/src/interface/generate/server.rs","macros/src/interface/generate/message_enum.rs","macros/src/interface/generate/streams.rs"],[("generated send and receive functions","macros/src/interface/generate")],["messages sent and decoded by generated code"])
prop("C41","The interface macro rejects ambiguous or invalid interfaces",
 "An interface that declares the same name or the same ID twice among its services, among its streams, or among the request updates or the response updates of one service, or that uses a service ID that does not fit in 32 bits or is reserved for error responses, does not compile. The same ID or name in different scopes is accepted.",
 ["programs"],"every interface definition given to the macro; one witness per kind of clash and scope",
 "There is no compile-fail test.",
 ["macros/src/interface/parse.rs"],[("duplicate checks in the cooked interface definition","macros/src/interface/parse.rs")],["compile errors"])
prop("C42","A remote error is never decoded as a success",
 "Generated code that receives a response first checks for the reserved error service ID: an error response always becomes a remote error with the sender's text, without being passed to the decoder of the response type, and every other response is decoded and never reported as a remote error. A failed encode or decode is returned as an error and nothing is sent for a failed encode.",
 ["programs","inputs"],"every generated receive and send function of a witness interface with every kind of item, every response",
 "Macro tests do not exchange error responses.",
 ["macros/src/interface/generate/services.rs"],[("generated recv_response and service functions","macros/src/interface/generate/services.rs")],["result of generated service calls"])
prop("C43","Unknown and undecodable messages are reported with what is needed to answer",
 "Generated servers and update receivers report a message with an unknown service ID together with the complete message, and one whose body does not decode together with its header or its request handle and the decode error. No incoming message is silently dropped and none is mapped to another variant.",
 ["inputs","programs"],"every service ID and body that can arrive at generated code",
 "Tests send no unknown or malformed messages to generated servers.",
 ["macros/src/interface/generate/server.rs","macros/src/interface/generate/services.rs"],[("generated recv_message and recv_update","macros/src/interface/generate/server.rs")],["RecvMessageError","ParseUpdateError"])
prop("C44","Introspection describes the interface that is actually served",
 "For every interface, the service, update and stream definitions reported at run time list every declared item once, in order, with the declared name, ID and hidden flag and with the type information of the body types that generated code really encodes and decodes.",
 ["programs"],"every item of a witness interface that contains every kind of item",
 "The existing tests check one interface by example and do not compare it with the code that is generated.",
 ["macros/src/interface/generate/interface_struct.rs"],[("generated Interface::services/streams","macros/src/interface/generate/interface_struct.rs")],["Interface::definition"])
prop("C45","Generated handles stand for the library handle they wrap",
 "For every interface, a generated client, server or request handle wraps exactly the library handle it was made of, gives that handle back unchanged (as a shared reference, an exclusive reference or the handle itself, as promised), reports its request and service ID, and closing it, cloning it or making write and close handles from it does what the same operation on the wrapped handle does.",
 ["programs","inputs"],"every interface definition accepted by the macro, represented by witness interfaces; every generated handle type",
 "Only a few generated functions are called by tests, in one interface.",
 ["macros/src/interface/generate/services.rs","macros/src/interface/generate/client.rs","macros/src/interface/generate/server.rs"],[("generated Client, Server, request handles","macros/src/interface/generate")],["results of generated accessors","commands sent to the peer"])
prop("C46","Generated items are exactly as visible as the interface is declared",
 "Everything the interface macro generates for an interface (Interface, Client, Server, StreamMessage, ReceivedMessage, ReceivedRequestHandle, Format and the module of each service with all it contains) can be used wherever the declared visibility of the interface allows it, and nowhere else. Without a declared visibility that is the module of the interface. The public functions of the generated items can be called wherever the interface is visible.",
 ["programs"],"every visibility an interface can be declared with, every generated item, every place of use",
 "The tests use one interface from its own module; a program that must not compile cannot be a test.",
 ["macros/src/interface/generate/mod.rs","macros/src/interface/generate/streams.rs","macros/src/interface/generate/server.rs","macros/src/interface/generate/services.rs","src/macros.rs"],[("visibility of the generated items","macros/src/interface/generate")],["programs that the compiler accepts or rejects"])
prop("C50","Handles can be shared, cloned and moved as documented, and no further",
 "Peer, write, close and request handles can be sent to other threads for every body type, write and close handles can be cloned for every body type whether or not the body itself can, and read handles and full handles cannot be cloned. The futures of sending, receiving, answering, accepting and running can be sent to other threads. A full handle that was split or closed cannot be used again, and a second receive on a handle cannot be started while one is under way.",
 ["programs"],"every program that uses the handles, represented by pairs of compile-pass and compile-fail witnesses",
 "Tests only compile the programs they contain; a missing or additional trait shows in other programs.",
 [PH,RQ,PE],[("Clone and auto trait impls of the handle types",PH+", "+RQ)],["compile errors"])
prop("C51","Every combination of cargo features builds",
 "Each of the 16 combinations of the features macros, tcp, unix-stream and unix-seqpacket type-checks, and the items documented for an enabled feature are available exactly then.",
 ["configurations"],"all 16 feature combinations",
 "The test suite is built with all features only.",
 ["src/lib.rs","Cargo.toml"],[("cfg attributes","src")],["cargo check"])
prop("C60","Error predicates answer for exactly the errors they name",
 "The predicates for aborted connections, unexpected message types and remote errors answer yes for exactly the errors of that kind and no for all others, and the accessors of a remote error return its text unchanged. A receive error gives access to the request handle exactly when it concerns a request.",
 ["inputs"],"every kind of error",
 "No test covers the predicates.",
 [ERR],[("Error::is_*, as_*, into_*",ERR)],["result of the predicates"])
prop("C61","Message bodies keep their bytes and file descriptors",
 "Converting bytes, text, or bytes with file descriptors into a message body and reading the body back gives exactly the same bytes and descriptors, an empty body has neither, and an error text stored in a body is read back unchanged, or reported as invalid when the body is not UTF-8.",
 ["inputs"],"every content of every body type, every conversion into and out of it",
 "Tests use short literal bodies.",
 ["src/transport/stream/body.rs","src/transport/unix/body.rs"],[("From impls and Body impls","src/transport/stream/body.rs, src/transport/unix/body.rs")],["content of bodies","text of remote errors"])
prop("C62","Errors report what went wrong",
 "The text of every error contains everything the error holds: the service ID of the message or request concerned, sizes, limits and request IDs, and the inner error or message. Errors made by the public constructors show the values that were passed. Different kinds of errors are told apart by their text, and debug output names the right kind and shows its contents.",
 ["inputs"],"every kind of error with arbitrary contents",
 "No test looks at the text of an error.",
 [ERR,TM],[("Display and Debug of Error, RecvMessageError, ParseUpdateError, TransportError",ERR+", "+TM)],["text of errors"])
prop("C70","Waiting for two loops loses neither",
 "The internal select future polls both futures until one is ready, hands back the finished output together with the unfinished other future, and never polls a finished future. When the read loop ends first, the peer lets the command loop finish the commands queued before it, so that all messages received before the end of the connection are still delivered.",
 ["schedules"],"every order in which the two loops become ready",
 "Which of the loops ends first depends on timing.",
 ["src/util/select.rs",PE],[("Select::poll, Peer::run",PE)],["messages delivered at the end of a connection"])
prop("C71","Forwarding implementations forward",
 "The implementations of the transport and listener traits for references, boxes and pins, and the futures built on them, pass exactly their own arguments to the same operation of the inner object and return its result unchanged. None of them calls itself. encode_message and decode_message of a format are exactly the conversions of the message type, errors included.",
 ["inputs","programs"],"every forwarding implementation of the crate",
 "No test uses the forwarding implementations.",
 [TM,"src/util/accept.rs"],[("impls for &mut T, Box<T>, Pin<P>",TM)],["behaviour of wrapped transports"])
prop("C80","The Wireshark dissector reads messages as the library writes them",
 "For every message at every position in a TCP segment, the dissector announces the length the library put in front of it, and shows the message type (with the names of the types), the request ID, the service ID and the body from the places, with the size, signedness and byte order, at which a stream transport with the default configuration writes them. Every name it uses is defined and every field it shows is registered.",
 ["inputs"],"every message and every split of the stream into segments",
 "The dissector is not run by any test; a capture with one message per segment does not show a wrong length.",
 ["wireshark/fizyr-rpc.lua","src/message.rs"],[("dissector, length function and message function","wireshark/fizyr-rpc.lua"),("MessageHeader::encode","src/message.rs")],["what is shown for captured traffic"])
prop("C81","Every ready operation is eventually served",
 "As long as the transport accepts data, every queued send is eventually written and every received message is eventually delivered, no matter how busy the other direction is.",
 ["schedules"],"every fair schedule",
 "Starvation needs unbounded schedules.",
 [PE],[("select over the two loops",PE)],["progress of both directions"])
here = os.path.dirname(os.path.abspath(__file__))
with open(os.path.join(here, "..", "properties.jsonl"), "w") as f:
    for p in P: f.write(json.dumps(p) + "\n")
print(len(P))
