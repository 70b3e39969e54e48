#!/usr/bin/env python3
"""Source of /verif/properties.jsonl (run by hand: python3 tools/gen_properties.py)."""
import json, os
P = []
def p(id, title, statement, over, text, why, files, mech, state=None, observe=None):
    a = {"files": files, "mechanism": [{"name": n, "where": w} for n, w in mech]}
    if state: a["state"] = [{"name": n, "meaning": m, "where": w} for n, m, w in state]
    if observe: a["observe_at"] = observe
    P.append({"id": id, "title": title, "statement": statement,
              "quantifier": {"over": over, "text": text}, "why_tests_cant": why, "anchors": a})

BUF = "src/utils/Buffer.cpp"
p("W01", "Primitive values encode to the CIP wire layout and decode back unchanged",
  "Every value the codec can encode - 8/16/32/64-bit signed and unsigned integers, 32/64-bit floats, byte and 16-bit-word sequences, length-prefixed strings of up to the prefix's capacity, revisions and IPv4 socket addresses - is appended as exactly its CIP encoding (little-endian, two's complement, IEEE-754 bit pattern; socket addresses as the 16-byte big-endian form) without disturbing bytes written before. Decoding the same sequence of types from those bytes yields bit-identical values and consumes exactly the bytes that were written; two revisions are equal exactly when both their numbers are.",
  ["inputs", "programs"], "all values of every type, in every mixed sequence of encodes/decodes",
  "The unit tests encode one or two constants per type; sign extension, carries between bytes, NaN patterns and mixed sequences are unbounded.",
  ["src/utils/Buffer.h", BUF, "src/cip/CipString.h", "src/cip/CipRevision.cpp"],
  [("operator<< / operator>> overloads", BUF), ("CipBaseString length prefix", "src/utils/Buffer.h")],
  observe=["Buffer::data()", "Buffer::pos()"])
p("W02", "Decoding past the end is bounded, repeatable and always reported",
  "Decoding any sequence of types from any bytes never touches memory outside those bytes, and what it produces depends only on the bytes and the sequence, not on earlier contents of memory. As soon as one decode needed more bytes than were left the buffer reports itself invalid and stays so, while as long as every decode was satisfied it stays valid and reports empty exactly when all bytes are consumed.",
  ["inputs", "programs"], "all byte strings (including empty), all decode sequences",
  "No test decodes past the end; the fault is a silent heap over-read that a normal build does not show.",
  ["src/utils/Buffer.h", BUF],
  [("position/size bookkeeping and isValid()", "src/utils/Buffer.h"), ("operator>> overloads", BUF)],
  observe=["Buffer::isValid()", "Buffer::empty()", "Buffer::pos()"])
p("W03", "Encapsulation packets round-trip and inconsistent lengths are rejected",
  "Any encapsulation packet built from a command, session handle, status and payload of up to 65535 bytes is serialised as the 24-byte EtherNet/IP header (declared length = payload size, zero sender context and options unless parsed otherwise) followed by the payload, and parsing those bytes reproduces an equal packet. Parsing accepts a byte string if and only if it is at least 24 bytes long and its declared length equals the number of bytes after the header; otherwise it fails with an exception, and parsing then re-serialising accepted bytes reproduces them exactly. Two packets are equal exactly if all their fields are, and the length read from a header alone is the declared one. Named commands and statuses stand for their EtherNet/IP numbers.",
  ["inputs"], "all header field values, payloads and arbitrary byte strings",
  "Tests parse one fixed packet and one wrong length; header fields and lengths range over their whole domains.",
  ["src/eip/EncapsPacket.cpp", "src/eip/EncapsPacket.h", "src/eip/EncapsPacketFactory.cpp"],
  [("EncapsPacket::pack/expand", "src/eip/EncapsPacket.cpp"), ("length check in expand", "src/eip/EncapsPacket.cpp"), ("EncapsPacketFactory", "src/eip/EncapsPacketFactory.cpp")],
  observe=["EncapsPacket::pack()", "EncapsPacket::expand()"])
p("W04", "Common-packet item lists keep order and content; truncated items are rejected",
  "A list of any number of typed items is serialised as a 16-bit count followed by type, length and data of each item in order, and parsing it gives back the same items in the same order, replacing whatever the object held before; named item types stand for their EtherNet/IP numbers, and items compare equal exactly when type and data are equal. Parsing a byte string in which an item header or item body is cut short fails with an exception rather than yielding an item whose bytes were not in the input, and never yields more items than the count announced (an input that ends exactly after a whole item although more were announced may be accepted with the items it has).",
  ["inputs"], "all item lists and arbitrary byte strings",
  "Tests use two items with short bodies; truncation at each offset and count/length disagreement are not sampled.",
  ["src/eip/CommonPacket.cpp", "src/eip/CommonPacketItem.cpp", "src/eip/CommonPacketItemFactory.cpp"],
  [("CommonPacket::pack/expand", "src/eip/CommonPacket.cpp"), ("CommonPacketItem::pack", "src/eip/CommonPacketItem.cpp")],
  observe=["CommonPacket::getItems()"])
p("W05", "Object paths encode canonically and parse back to the same object address",
  "A path of a class, a class and instance, or a class, instance and attribute (any 16-bit numbers, or 8-bit numbers in 8-bit and Yaskawa form; zero is a legal number) is packed as the padded logical segments of the chosen width, in class-instance-attribute order, with a size in words equal to half the packed byte count. Parsing a packed path of either width yields a path equal to the original with the same numbers and size; parsing bytes with an unknown segment type or a segment cut short fails with an exception. Two paths compare equal exactly when their depths and all their numbers are equal.",
  ["inputs", "configurations"], "all class/instance/attribute numbers, path depths, segment widths; arbitrary byte strings",
  "Tests use a few small non-zero numbers; zero and boundary numbers, both widths and malformed segments are not combined.",
  ["src/cip/EPath.cpp", "src/vendor/yaskawa/mp3300iec/Yaskawa_EPath.cpp"],
  [("packPaddedPath/expandPaddedPath/getSizeInWords", "src/cip/EPath.cpp"), ("same for 8-bit variant", "src/vendor/yaskawa/mp3300iec/Yaskawa_EPath.cpp")])
p("W06", "Connection parameter words hold each field independently and read back",
  "Building a network connection parameter word by setting each of redundant-owner, connection type, priority, fixed/variable and size at most once, in any order and through any chaining style, produces the specified bit layout for normal (16-bit, 9-bit size) and large (32-bit, 16-bit size) forward open, and every field read back from the word, or from a builder constructed from that word, equals what was set. Setting one field never changes another, and the named values and bits stand for their CIP encodings.",
  ["inputs", "programs"], "all field values, setter orders and chaining styles, both word formats",
  "There is no test of this builder at all.",
  ["src/cip/connectionManager/NetworkConnectionParametersBuilder.cpp", "src/cip/connectionManager/NetworkConnectionParams.h"],
  [("bit shifts and masks", "src/cip/connectionManager/NetworkConnectionParametersBuilder.cpp")])
p("W07", "Endpoints compare, order and convert consistently",
  "For endpoints with valid IPv4 hosts and any port, host, port and socket address always denote the same address whichever way the endpoint was made, text and binary forms convert into each other without loss, and equality holds exactly when host and port are equal. The ordering is a strict weak ordering consistent with equality, so containers keyed by endpoints keep distinct endpoints apart and find each again.",
  ["inputs"], "all IPv4 addresses, ports, pairs and triples of endpoints",
  "One test constructs one endpoint; ordering laws quantify over pairs and triples.",
  ["src/sockets/EndPoint.cpp"],
  [("constructors, operator==, operator<", "src/sockets/EndPoint.cpp")])

SESS = "src/SessionInfo.cpp"
p("S01", "Sessions register once, use the assigned handle throughout, unregister once",
  "Creating a session opens one TCP connection to the given endpoint and sends exactly one well-formed register request before anything else; if the adapter refuses, answers with an error status, or the answer is incomplete, creation fails with an exception and leaves nothing connected. A created session reports the handle the adapter assigned, every later explicit request carries that (non-zero) handle, a reply carrying a different handle or an error status is reported as an exception, and destroying the session sends exactly one unregister request with that handle and closes the connection, without ever throwing or terminating the process even if the connection is already broken.",
  ["histories", "inputs", "fault_sequences"], "all handles, reply statuses, request histories, and connection failures at any point of the session's life",
  "No test covers a session at all (they mock it); histories and failing peers are unbounded.",
  [SESS, "src/sockets/TCPSocket.cpp", "src/eip/EncapsPacketFactory.cpp"],
  [("SessionInfo constructor / destructor / sendAndReceive", SESS)],
  state=[("_sessionHandle", "handle assigned by the adapter", "src/SessionInfo.h")],
  observe=["bytes the adapter receives", "exceptions", "TCP connection state"])
TCP = "src/sockets/TCPSocket.cpp"
p("S02", "A reply is delivered intact however the byte stream arrives, or not at all",
  "Whatever way TCP splits, delays or coalesces the adapter's bytes, and however often system calls are interrupted by signals, a completely received reply is returned byte for byte, and a request reaches the adapter byte for byte even when the socket accepts it piecemeal. If the stream ends, resets or times out before the reply is complete, or the request could not be fully sent, the caller gets an exception - never a reply containing bytes the adapter did not send.",
  ["schedules", "fault_sequences", "inputs"], "all segmentations, delays, interruption points, partial sends, and cut points of the byte stream, for replies and requests up to the maximum packet size",
  "Socket code is not tested; the interesting executions need a hostile peer and kernel.",
  [TCP, SESS, "src/eip/EncapsPacket.cpp"],
  [("Receive loop", TCP), ("Send", TCP), ("header-then-body read", SESS)],
  observe=["EncapsPacket returned by sendAndReceive", "bytes the adapter receives"])
p("S03", "Every descriptor opened is closed exactly once, whatever fails",
  "Across any mix of creating and destroying sessions, discovery runs, I/O connections and connection managers, with any system call failing at any point, once the objects are destroyed every socket descriptor they opened has been closed exactly once, and no descriptor is used or closed after it was closed or without having been opened by them. Descriptor numbers of any size are handled without memory errors, by working normally or failing with an exception.",
  ["fault_sequences", "histories"], "every system call of every scenario failing with every plausible error, alone and in combination; descriptor numbers below and above 1023",
  "Needs exhaustive fault injection and descriptor accounting that tests do not have.",
  [TCP, "src/sockets/UDPSocket.cpp", "src/sockets/UDPBoundSocket.cpp", "src/sockets/BaseSocket.cpp", "src/DiscoveryManager.cpp", "src/ConnectionManager.cpp"],
  [("socket constructors' error paths", TCP), ("socket destructors", "src/sockets/UDPSocket.cpp"), ("Close/Shutdown", "src/sockets/BaseSocket.cpp")])
p("S04", "Each request gets the adapter's reply to that request",
  "For any sequence of explicit requests on one or several open sessions to one or several adapters, the response returned for a request is the one the adapter produced for exactly that request, including after requests that were answered with an error status or rejected as malformed (a reply arriving only after its request already ended in a timeout is outside this guarantee on the same session, but never affects other sessions). Requests appear at each adapter exactly once and in the order issued on that session.",
  ["histories", "schedules"], "all request sequences and interleavings over sessions, reply sizes, error replies and reply delays",
  "Pairing depends on histories of requests with failures in between; tests mock one request at a time.",
  [SESS, "src/MessageRouter.cpp", TCP],
  [("sendAndReceive", SESS), ("sendRequest", "src/MessageRouter.cpp")])
p("S05", "A silent or unreachable peer ends in an error within the configured timeout",
  "If the adapter does not accept the connection, or goes silent at any byte of a reply, creating a session or waiting for a reply fails with an exception no earlier than the peer's silence reached the session timeout and no later than one timeout after the last byte received plus one further timeout per interruption by a signal. An answer arriving within the timeout is never lost to a spurious timeout, signals included (connection attempts end within the operating system's own limit, too).",
  ["schedules", "fault_sequences", "configurations"], "all timeouts, stall points, connect outcomes, and signal arrival points",
  "Real-time waits and signal interruptions are not reproducible in unit tests.",
  [TCP, "src/sockets/BaseSocket.cpp", SESS],
  [("non-blocking connect with select", TCP), ("SO_RCVTIMEO set from timeout", "src/sockets/BaseSocket.cpp")])

p("S06", "Sockets carry what was given, wait as told and report the system's errors",
  "A TCP socket delivers every buffer given to it completely, once and in order, and receiving n bytes returns exactly the next n bytes of the peer's stream, fewer only when the peer has ended it. A UDP socket sends every buffer as one datagram to its remote end point; each receive takes exactly one waiting datagram, in order of arrival, cut to the requested size, together with its sender's address and port; a bound socket receives what is sent to its port. With a receive timeout set, a receive fails after that much silence and not earlier; without one it waits. Waiting for several sockets, whose handlers receive what is there, calls the handler of each given socket that has something to receive and of no other, lets exceptions of handlers out, and ends after the given time, not more than a millisecond early, signals notwithstanding; with no sockets it just waits. Every failing system call is reported as a std::system_error with the operating system's error number (timed out, for a connection that takes too long) and leaves no descriptor behind; getters report what was set.",
  ["schedules", "fault_sequences", "histories", "configurations"], "all sizes, piecewise arrivals, senders, timeouts, socket sets, signals and failing system calls",
  "The sockets are exercised by no test except through mocks.",
  [TCP, "src/sockets/UDPSocket.cpp", "src/sockets/UDPBoundSocket.cpp", "src/sockets/BaseSocket.cpp", "src/sockets/EndPoint.cpp"],
  [("Receive loop and short result at the end of the stream", TCP), ("ReceiveFrom", "src/sockets/UDPSocket.cpp"), ("select loop", "src/sockets/BaseSocket.cpp"), ("getLastError right after the failing call", TCP)])

p("S07", "Every operation uses the session it is given, only it, and only for the call",
  "Every operation on the library's objects - reading identities, parameters and fault objects, refreshing, uploading files, handling faults, writing commands, plain requests, opening and closing I/O connections - sends its requests only through the session passed to that very call, whatever session the object was used with before and whichever implementation of the session interface it is, with that session's handle, and takes its values from that session's answers; I/O data goes to that session's remote host. Operations and objects that were given a message router send every request through it. A failure the session throws is never swallowed and leaves the object usable with other sessions. Nothing keeps a session beyond the call: when the program gives up its last reference, the session is unregistered and closed at once, while the objects made with it stay usable with other sessions.",
  ["histories", "configurations"], "all sequences of operations on any objects over any sessions, devices, session and router implementations",
  "Tests use one mock session per object and never exchange or drop it.",
  ["src/MessageRouter.cpp", "src/ConnectionManager.cpp", "src/ParameterObject.cpp", "src/IdentityObject.cpp", "src/FileObject.cpp", "src/fileObject/FileObjectState.cpp", "src/fileObject/FileObjectLoadedState.cpp", "src/fileObject/FileObjectUploadInProgressState.cpp", "src/vendor/ra/powerFlex525/DPIFaultManager.cpp", "src/vendor/ra/powerFlex525/DPIFaultParameter.cpp", "src/vendor/ra/powerFlex525/DPIFaultObject.cpp", "src/vendor/yaskawa/mp3300iec/Yaskawa_MessageRouter.cpp"],
  [("SessionInfoIf passed per call", "src/SessionInfoIf.h"), ("sendRequest through the session", "src/MessageRouter.cpp")],
  observe=["SessionInfoIf::sendAndReceive()", "packets received by the adapters"])

MR = "src/MessageRouter.cpp"
p("X01", "Explicit requests and responses are carried faithfully",
  "An explicit request for any service, path, data and additional items reaches the adapter as one send-RR-data packet with the session's handle, interface handle 0, a null address item, an unconnected-data item holding exactly service, path length, path and data in the router's path width, then the additional items in order. The returned response exposes exactly the service byte, general status, additional status words, data and additional items of the adapter's answer, for every well-formed answer and for both the standard and the Yaskawa router; named services and statuses stand for their CIP codes.",
  ["inputs", "configurations"], "all services, paths, data and item lists of transmissible size; all statuses, status words, response data",
  "Tests check one request in each path width against a mock.",
  [MR, "src/cip/MessageRouterRequest.cpp", "src/cip/MessageRouterResponse.cpp", "src/vendor/yaskawa/mp3300iec/Yaskawa_MessageRouter.cpp", "src/vendor/yaskawa/mp3300iec/Yaskawa_MessageRouterRequest.cpp"],
  [("sendRequest", MR), ("MessageRouterResponse::expand", "src/cip/MessageRouterResponse.cpp")])
p("X02", "Malformed replies are reported; values are never made up from missing bytes",
  "If a reply to any high-level read (identity, parameter and its value, file state and transfer, drive fault information, forward open, plain explicit request) is truncated at any byte or has inconsistent lengths, the operation reports failure by an exception or its documented error callback. It never returns normally with a value for which the reply did not contain all the bytes, never crashes, and leaves a previously read value unchanged. (Additional packet items missing entirely, the reply ending after a whole item, and answers to writes and forward closes are not covered; reading one value with a type of another size is the caller's error.)",
  ["inputs", "fault_sequences"], "every truncation point and length-field corruption of every reply of every operation",
  "The checks for missing data are only exercised for well-formed replies (one was missing its throw entirely).",
  ["src/IdentityObject.cpp", "src/ParameterObject.cpp", "src/fileObject/FileObjectState.cpp", "src/fileObject/FileObjectLoadedState.cpp", "src/fileObject/FileObjectUploadInProgressState.cpp", "src/vendor/ra/powerFlex525/DPIFaultObject.cpp", "src/vendor/ra/powerFlex525/DPIFaultParameter.cpp", "src/ConnectionManager.cpp", MR],
  [("isValid() checks after decoding", "src/IdentityObject.cpp"), ("minimum-size checks", "src/cip/MessageRouterResponse.cpp")])
p("X03", "The identity object reports exactly what the adapter sent",
  "Reading the identity sends one get-all-attributes request to the identity class instance asked for and yields the vendor, device type, product code, revision, status, serial number and product name (up to 255 arbitrary bytes) exactly as encoded in the reply. Each setter changes exactly its own attribute, to exactly the given value.",
  ["inputs"], "all attribute values and names, all setter sequences",
  "One test reads one fixed identity.",
  ["src/IdentityObject.cpp", "src/cip/CipString.h", "src/cip/CipRevision.cpp"],
  [("constructor decoding order", "src/IdentityObject.cpp")])
PO = "src/ParameterObject.cpp"
p("X04", "Parameter objects decode faithfully and scaling is consistent",
  "Reading a parameter exposes value, minimum, maximum, default (of 1, 2, 4 or 8 bytes, signed, unsigned or floating), type, names, flags, precision and scaling attributes exactly as the adapter reports them, and refreshing replaces only the value. Engineering values equal ((actual + offset) x multiplier x base) / (divisor x 10^precision) for scalable parameters and the actual value otherwise, and converting an actual value to engineering units and storing that engineering value back as minimum, maximum or default yields the original value (integers of magnitude below 2^45 exactly, floats up to rounding); an engineering value whose actual value does not fit the stored type is refused with an exception.",
  ["inputs", "histories"], "all parameter images, types, scaling factors (non-zero multiplier, base, divisor) and representable values",
  "Two fixed parameters are tested; rounding errors appear only for particular value/scale combinations.",
  [PO, "src/ParameterObject.h"],
  [("constructor decoding", PO), ("actualToEngValue/engToActualValue", PO), ("setEng*Value", "src/ParameterObject.h")])
FU = "src/fileObject/FileObjectUploadInProgressState.cpp"
p("X05", "File upload delivers the exact file once, or an error once",
  "Uploading a file of any size in any number of transfers (beyond 255 too) through a fresh file object from an adapter that follows the transfer protocol invokes the completion callback exactly once with success and exactly the file's bytes, and polling then stops. If the adapter answers any step with an error status, a wrong transfer number or a total size that disagrees with the announced one, the callback is invoked exactly once with a non-success status and no content and polling reports completion; a transfer marked aborted or of an unknown type ends it by that or by an exception, never by success; beginning an upload that is under way disturbs nothing; polling a file that cannot be uploaded sends nothing and reports completion. The object shows the file state the adapter reported when it was last read (an upload unfinished there as a loaded file) until an upload is under way, and a file whose state is read again can be uploaded again.",
  ["inputs", "histories", "fault_sequences"], "all file sizes and contents, transfer sizes, transfer counts, and protocol violations at each step",
  "Tests drive two transfers on a mock; transfer counter wrap, per-step failures and termination need long histories.",
  [FU, "src/fileObject/FileObjectLoadedState.cpp", "src/fileObject/FileObjectState.cpp", "src/FileObject.cpp"],
  [("transfer state machine", FU), ("initiateUpload", "src/fileObject/FileObjectLoadedState.cpp")],
  state=[("_transferNumber", "next expected 8-bit transfer number", "src/fileObject/FileObjectUploadInProgressState.h"), ("_fileContent", "bytes received so far", "src/fileObject/FileObjectUploadInProgressState.h")])
DM = "src/vendor/ra/powerFlex525/DPIFaultManager.cpp"
p("X06", "Drive faults are reported once each, in order, and cleared only when asked",
  "Handling drive faults reads the fault-code parameters in order until the first that reports no fault (at most ten) and calls the fault listener exactly once per reported fault, in order, with the fault number, code, its documented description, and, when details were requested, bus voltage, current and frequency from that fault's own parameters scaled to engineering units. If and only if clearing is enabled and at least one fault was reported, exactly one clear-queue command is sent after all faults were delivered, and explicitly written commands are sent as asked, and a code without documentation is never delivered as another fault; the fault object exposes exactly the attributes the adapter sent.",
  ["inputs", "configurations"], "all fault queues (0-10 known codes), detail values, and option combinations",
  "Tests cover a single fault with one option set.",
  [DM, "src/vendor/ra/powerFlex525/DPIFaultParameter.cpp", "src/vendor/ra/powerFlex525/DPIFaultObject.cpp", "src/vendor/ra/powerFlex525/DPIFaultCode.h"],
  [("handleFaultParameters", DM), ("fault number to parameter number table", "src/vendor/ra/powerFlex525/DPIFaultParameter.cpp")])
p("X07", "An error status from the adapter is never mistaken for success",
  "Whenever the adapter answers any step of a high-level operation with a non-success general status, that operation reports it: object reads, value refreshes and commands throw, file transfers call their callback with that status and no content, opening an I/O connection returns an empty handle and leaves no open connection, closing one forgets it whatever the adapter answers, and plain requests expose the status unchanged. No value or data contained in an error reply is ever surfaced as if it had been read successfully.",
  ["inputs", "fault_sequences"], "every operation step with every general status code, with and without additional status and data",
  "Tests cover a single error code for a few operations.",
  ["src/IdentityObject.cpp", PO, "src/FileObject.cpp", "src/fileObject/FileObjectState.cpp", FU, DM, "src/vendor/ra/powerFlex525/DPIFaultParameter.cpp", "src/ConnectionManager.cpp"],
  [("general status checks", PO), ("forwardOpen error branch", "src/ConnectionManager.cpp")])

CM = "src/ConnectionManager.cpp"; IO = "src/IOConnection.cpp"
p("I01", "Forward open and close requests say what the user asked for",
  "Opening an I/O connection sends one (large) forward open to the connection manager object carrying the caller's timing, identity, RPI, trigger and path parameters unchanged, a connection serial number not used by any other open connection, fresh originator-chosen connection ids where the connection type calls for them, and each direction's size increased by exactly the sequence-count (transport class 1 and 3) and real-time-header overhead. Closing sends one forward close with the same serial number, originator identity and path, after which the manager no longer counts the connection; any non-large connection path of whole words and even length is carried intact.",
  ["inputs", "histories", "configurations"], "all connection parameters whose sizes fit their fields, all sequences of opens and closes",
  "The connection manager has no test in the suite.",
  [CM, "src/cip/connectionManager/ForwardOpenRequest.cpp", "src/cip/connectionManager/LargeForwardOpenRequest.cpp", "src/cip/connectionManager/ForwardCloseRequest.cpp", "src/cip/connectionManager/ForwardOpenResponse.cpp"],
  [("forwardOpen / forwardClose", CM), ("request packing", "src/cip/connectionManager/ForwardOpenRequest.cpp")],
  state=[("_connectionMap", "open connections by T2O id", "src/ConnectionManager.h")])
p("I02", "Incoming I/O data reaches exactly the addressed connection, unaltered, in order",
  "Each well-formed I/O datagram whose connection id belongs to an open connection and whose payload fits that connection's size rules triggers that connection's receive listener exactly once, in arrival order, with exactly the payload, sequence count and real-time header it carried, and triggers no other connection's listener. This holds for any 32-bit ids of simultaneously open connections and any mix of transport classes, formats and sizes; fixed-size connections drop payloads of any other size, variable-size ones accept any size up to the agreed one; arrival order is guaranteed per connection.",
  ["inputs", "histories", "schedules"], "all sets of simultaneously open connections with distinct 32-bit ids, all datagram sequences and arrival patterns relative to polling",
  "Not tested; id truncation and misdispatch only show with particular id pairs.",
  [CM, IO, "src/sockets/UDPSocket.cpp", "src/sockets/BaseSocket.cpp"],
  [("receive handler dispatch by id", CM), ("notifyReceiveData", IO)])
p("I03", "Outgoing I/O data is produced at the agreed interval with correct framing",
  "While a connection is open and polled, one frame is produced at the first poll at which the agreed O2T interval has elapsed since the previous production (or opening) and none earlier, for any polling pattern including polls far more frequent than a millisecond. Each frame goes to the adapter's address and the port it announced (default 2222), carries the adapter's O2T id, sequence numbers that increase by one per production (starting anywhere; a production withheld for its size may or may not consume one), the 16-bit sequence count for class 1/3 and run-mode header if configured, and the data as of that moment including changes made by the send listener; with a fixed size, data of another size is never sent.",
  ["schedules", "histories", "configurations"], "all intervals, polling patterns, formats, data updates; inbound traffic that lets polling return",
  "Needs control of time; not tested.",
  [IO, CM],
  [("notifyTick", IO), ("socket address item handling", CM)],
  state=[("_o2tTimer", "time since last production", "src/IOConnection.h")])
p("I04", "A connection is dropped after its inactivity timeout, once, and never before",
  "A polled connection whose listener has accepted no data for longer than 4 x 2^multiplier times the agreed T2O interval (multiplier 0-7) is closed at the next poll: its close listener runs exactly once, its handle expires, it is no longer counted as open and produces nothing more. A connection that accepted data more recently than that is never closed for inactivity, regardless of polling rate, gaps between polls, activity of other connections, or the size of the interval.",
  ["schedules", "histories", "configurations"], "all multipliers and intervals, polling patterns, arrival patterns",
  "Needs control of time; not tested (multipliers 6 and 7 overflowed).",
  [IO, CM],
  [("inactivity accounting in notifyTick/notifyReceiveData", IO), ("removal after failed tick", CM)],
  state=[("_connectionTimeoutMultiplier", "timeout factor", "src/IOConnection.h")])
p("I05", "Hostile or stray datagrams and send failures do not disturb healthy connections",
  "No datagram - truncated at any byte, with inconsistent lengths or counts, for unknown connections, empty or oversized - makes polling throw, reaches any listener, or changes which data later valid datagrams deliver. A transient failure to send on, receive from or wait for the network in one poll neither disturbs the other connections' production nor stops production and reception in later polls once the failure is over (a failed receive or wait may be reported by an exception from that one poll).",
  ["inputs", "fault_sequences"], "all datagram byte strings interleaved with valid traffic; all send/receive error codes at any poll",
  "Not tested; needs hostile datagrams and fault injection.",
  [CM, IO, "src/eip/CommonPacket.cpp"],
  [("parsing in the receive handler", CM)])
p("I06", "Connections can be opened and closed at any time, also from listeners",
  "Any sequence of opening, polling, explicit closing (also twice, after a timeout, or from within a receive, send or close listener of the same or another connection), replacing listeners (also from within themselves) and destroying the manager runs without memory errors or process termination (polling from inside a listener and destroying the manager inside one are not supported), polling with no connections just waits, and the manager reports open connections exactly while there are some. After a connection was closed or the manager destroyed none of its listeners is invoked and nothing more is sent for it, and closing one connection never affects another.",
  ["histories", "programs"], "all sequences of open/close/poll/destroy operations including re-entrant ones",
  "Re-entrancy and object-lifetime histories are not tested; failures are use-after-free.",
  [CM, IO],
  [("iteration over connections", CM), ("shared ownership of connections", CM)])

p("D01", "Discovery returns every well-formed answer and survives the rest",
  "A discovery run broadcasts one list-identity request to the configured address and port and returns, in arrival order, one entry per identity item in well-formed answers received within the timeout of the previous one, each with exactly the identity attributes and socket address the device sent. Answers may be as long as any device's single identity answer (up to 504 bytes). Malformed, truncated or empty datagrams, and items too short to hold an identity, produce no entry and do not prevent the other devices from being returned; the end of answers is a normal result, and other network errors are reported as exceptions.",
  ["inputs", "schedules", "fault_sequences"], "all sets and orders of answers, truncations of answers, arrival times, receive errors",
  "One test returns one device from a mock socket.",
  ["src/DiscoveryManager.cpp", "src/sockets/UDPSocket.cpp"],
  [("discover() receive loop", "src/DiscoveryManager.cpp")])
p("M01", "No network input causes memory errors or undefined behaviour",
  "Whatever bytes a peer sends, over TCP or UDP, in answer to whatever operation of the library - sessions, explicit messaging, object reads, file upload, fault handling, I/O connections, discovery - the library performs no invalid memory access, no undefined operation, and does not abort or loop forever; it completes the operation or throws an exception derived from the standard exception type.",
  ["inputs", "histories"], "all byte sequences from the peer, structured, mutated and random, for every operation",
  "Tests use well-formed replies only and run without sanitizers.",
  [BUF, "src/eip/CommonPacket.cpp", "src/cip/MessageRouterResponse.cpp", SESS, CM, IO, FU, PO],
  [("bounds checks in decoding", BUF)])
p("M02", "Behaviour never depends on uninitialised memory",
  "Given the same calls, configuration, clock and peer behaviour, the library sends the same bytes and returns the same values on every run: nothing it sends, returns, logs or decides depends on the previous contents of stack or heap memory.",
  ["inputs", "histories"], "all operations and their failure paths, over differing prior memory contents",
  "A test reading the value memory happens to hold passes by luck.",
  ["src/cip/CipString.h", "src/IOConnection.cpp", "src/eip/EncapsPacket.cpp", BUF, "src/vendor/ra/powerFlex525/DPIFaultParameter.cpp"],
  [("member initialisers", IO), ("local variable initialisation before decode", BUF)])
p("M03", "Independent objects may be used from different threads without data races",
  "Threads that each use their own sessions, objects, discovery and connection managers, sharing nothing but the library itself and logging configured before they start, never race on library data, and each thread obtains the results it would obtain alone. In particular connections opened concurrently through different managers (fewer than 65536 in all) get distinct connection serial numbers and ids.",
  ["schedules"], "all thread interleavings of independent use",
  "All tests are single-threaded.",
  [CM, "src/utils/Logger.cpp", "src/fileObject/FileObjectState.cpp"],
  [("process-wide counters", CM), ("logger statics", "src/utils/Logger.cpp")])
p("M04", "Memory is given back and does not accumulate",
  "Destroying the library's objects returns all memory allocated on their behalf, also after constructors or operations that failed. Objects that live long do not accumulate memory: repeating the same operations any number of times on the same session, router, connection manager, discovery manager, fault manager or object (reads, refreshes, uploads, drive faults, commands, discovery, I/O connections opened, used, refused, closed and timed out, with any addresses, paths, ids and contents; succeeding or failing) does not increase the memory in use.",
  ["histories", "fault_sequences"], "all sequences of operations and failures, repeated any number of times",
  "Tests run each operation once or twice; a leak has no visible effect in a short run.",
  [CM, MR, "src/DiscoveryManager.cpp", "src/FileObject.cpp", "src/SessionInfo.cpp", IO],
  [("connections erased from the map", CM), ("state objects owned by unique_ptr", "src/FileObject.cpp"), ("listeners stored by value", IO)])
p("L01", "Log messages are filtered by level and delivered whole, once, in order",
  "With an appender that neither throws nor logs itself, a log message of severity error to trace is delivered to the current appender exactly once, complete and with its own severity, when its logger goes away, if and only if the global level is not off and is at least as verbose as the message; messages appear in the order their loggers ended, and changing level or appender takes effect for every message ending afterwards.",
  ["inputs", "histories"], "all levels, message compositions, nestings, level and appender changes",
  "No test covers the logger.",
  ["src/utils/Logger.cpp", "src/utils/Logger.h"],
  [("Logger destructor", "src/utils/Logger.cpp")])
p("L02", "Logging never changes results",
  "For any operation and any network behaviour, including errors and timeouts, the bytes sent, values returned, exceptions raised and callbacks invoked are the same whatever the log level and whatever a non-throwing appender that takes no noticeable time does, including system calls that change the thread's error number.",
  ["configurations", "inputs", "fault_sequences"], "all log levels and appender behaviours x all operations and failures",
  "Tests run with one log level and the console appender.",
  ["src/sockets/UDPSocket.cpp", TCP, "src/DiscoveryManager.cpp", "src/utils/Logger.cpp"],
  [("error code captured after logging", "src/sockets/UDPSocket.cpp")])

out = os.path.join(os.path.dirname(os.path.abspath(__file__)), "..", "properties.jsonl")
with open(out, "w") as f:
    for x in P:
        assert len(x["title"]) <= 80, x["id"]
        f.write(json.dumps(x) + "\n")
print(len(P), "properties")
