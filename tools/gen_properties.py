#!/usr/bin/env python3
"""Writes /verif/properties.jsonl (kept as a script so the text is easy to maintain)."""
import json, os
P = []
def prop(id, title, statement, over, qtext, why, files, mech, state=(), observe=(), hook=None):
    P.append(dict(id=id, title=title, statement=statement,
        quantifier=dict(over=over, text=qtext), why_tests_cant=why,
        anchors=dict(files=files, state=[dict(name=a, meaning=b, where=c) for a, b, c in state],
            mechanism=[dict(name=a, where=b) for a, b in mech], observe_at=list(observe), hook_needed=hook)))

prop("C01", "A client only completes with an authenticated server",
 "Against any server behaviour, a client's handshake completes only if the peer proved, for this very handshake, possession of the private key of the leaf certificate it presented or of a pre-shared key this client offered in this connection, and sent a correct Finished. "
 "For a certificate handshake the chain must also have passed the client's configured verification (trusted roots, host name, validity at Config.Time, and the VerifyPeerCertificate callback, or only the callback when InsecureSkipVerify is set) and the signature must use a scheme that fits the key and that the client offered. "
 "The reported peer certificates are exactly the presented chain.",
 ["inputs", "histories", "configurations"],
 "Every sequence of server messages, every corruption of a certificate, signature, binder or Finished, every client configuration.",
 "Tests run two mint endpoints that both behave; none contains a server that omits, forges, replays or reorders its authentication messages.",
 ["client-state-machine.go", "crypto.go", "negotiation.go", "conn.go"],
 [("clientStateWaitSH/WaitEE/WaitCertCR/WaitCert/WaitCV/WaitFinished", "client-state-machine.go"), ("AuthenticationManager verify, CertificateVerifyBody.Verify", "handshake-messages.go, crypto.go")],
 [("hState", "position in the client handshake", "conn.go Conn.hState"), ("peerCertificates/verifiedChains", "authenticated chain", "client-state-machine.go")],
 ["Conn.Handshake", "Conn.ConnectionState"])

prop("C02", "A server reports a client identity only after proof of possession",
 "Against any client behaviour, a server that requires client authentication and reports a non-empty client certificate chain has completed only with a client that signed this handshake with the leaf's private key and whose chain the VerifyPeerCertificate callback (when set) accepted; no server completes without a correct client Finished. "
 "A required CertificateRequest is always sent on certificate handshakes, and a client that skips, forges or reorders its certificate messages never gets the server to complete. "
 "An honest mint client with a usable certificate is always authenticated and reported with exactly its chain.",
 ["inputs", "histories", "configurations"],
 "Every sequence of client messages after the server flight, every forged signature/Finished, every server configuration.",
 "The client-auth tests use an honest mint client with one RSA certificate, or none.",
 ["server-state-machine.go", "client-state-machine.go", "crypto.go"],
 [("serverStateWaitFlight2/WaitCert/WaitCV/WaitFinished", "server-state-machine.go")],
 [("clientCertificate", "chain claimed by the client", "server-state-machine.go")],
 ["Conn.Handshake", "Conn.ConnectionState().PeerCertificates"])

prop("C03", "Both endpoints agree, and tampering never yields two different views",
 "If both endpoints complete a handshake with each other, they report the same cipher suite, ALPN protocol, PSK use and early-data use, each other's certificate chain, equal exporter values for every label, context and length, different values for different labels or contexts, and interoperable traffic keys and resumption secrets. "
 "If an attacker changes, drops, duplicates, reorders or injects any handshake bytes, then no two endpoints complete with differing views: every change that alters a handshake message makes at least one endpoint fail.",
 ["inputs", "fault_sequences", "configurations"],
 "All pairs of configurations, all single-byte and message-level manipulations of all handshake flights in either direction.",
 "Tests compare endpoints for a dozen fixed configurations and never run an active man in the middle.",
 ["client-state-machine.go", "server-state-machine.go", "conn.go", "negotiation.go", "crypto.go"],
 [("handshake transcript hash", "client-state-machine.go, server-state-machine.go"), ("Finished MAC, binder", "crypto.go computeFinishedData"), ("ComputeExporter", "conn.go")],
 [("Params", "negotiated parameters", "state-machine.go ConnectionParameters")],
 ["Conn.ConnectionState", "Conn.ComputeExporter", "application data both ways"])

prop("C04", "Handshake messages are accepted only in protocol order",
 "Each endpoint accepts a handshake message only at the point of the TLS 1.3 message order (for the mode actually negotiated) where that message is legal, and only under the keys of its epoch; every other sequence, including skipped, repeated, swapped, early or post-handshake-illegal messages, ends in an error and never in a completed handshake. "
 "Every legal order completes. "
 "No application data is accepted or sent before completion other than negotiated 0-RTT data.",
 ["histories", "inputs"],
 "All sequences over the handshake message alphabet up to a bounded length for client and server, in every mode (certificate, client auth, PSK, PSK-DHE, 0-RTT accepted/rejected, HelloRetryRequest).",
 "The state-machine tests cover a fixed set of honest state transitions; illegal sequences are not enumerated.",
 ["client-state-machine.go", "server-state-machine.go", "state-machine.go", "conn.go", "record-layer.go"],
 [("Next() of every state", "client-state-machine.go, server-state-machine.go"), ("stateConnected.ProcessMessage", "state-machine.go"), ("Rekey with leftover bytes check", "conn.go takeAction")],
 [("hState", "current state", "conn.go")],
 ["Conn.Handshake", "Conn.Read", "Conn.GetHsState"])

prop("C05", "A failed handshake stays failed",
 "Once a call to Handshake on a connection has reported a failure other than a non-blocking or stateless retry indication, the connection never completes: all later Handshake calls report a failure again, Read and Write of application data are refused, no exporter is available, and no further handshake messages are emitted, whatever the peer sends afterwards. "
 "Symmetrically, a completed handshake stays completed and keeps reporting the same negotiated parameters.",
 ["histories", "inputs"],
 "Every failure cause at every handshake state, followed by every continuation of API calls and peer messages.",
 "Tests stop at the first failing Handshake call.",
 ["conn.go"],
 [("handshakeAlert / handshakeComplete", "conn.go Handshake")],
 [("handshakeAlert", "recorded failure", "conn.go Conn")],
 ["Conn.Handshake", "Conn.Read", "Conn.Write", "Conn.ComputeExporter", "Conn.ConnectionState"])

prop("C06", "Negotiation stays inside both configurations and follows preference order",
 "The cipher suite, key-exchange group, signature scheme, PSK mode, certificate and application protocol that a handshake uses are always ones that both endpoints were configured with (or defaults) and offered, chosen by the implemented deterministic preference rule (client order for suites, groups and protocols), with the certificate for the requested name preferred and a signature scheme that the verifying side offered and that fits the key. "
 "Whenever what the client offers and the server supports have a common suite, group and usable certificate and scheme the handshake succeeds, and whenever there is no common suite, no common group, or no usable certificate or scheme it fails on the server. "
 "A client rejects any server selection it did not offer.",
 ["configurations", "inputs"],
 "The product of supported suites, groups, signature schemes, certificate kinds, names, PSK modes and ALPN lists on both sides, and arbitrary server selections.",
 "Unit tests call the negotiation helpers on about a dozen hand-written inputs.",
 ["negotiation.go", "client-state-machine.go", "server-state-machine.go", "crypto.go", "extensions.go"],
 [("VersionNegotiation, DHNegotiation, PSKNegotiation, PSKModeNegotiation, CertificateSelection, EarlyDataNegotiation, CipherSuiteNegotiation, ALPNNegotiation", "negotiation.go")],
 [("Params", "negotiated parameters", "state-machine.go")],
 ["Conn.Handshake", "Conn.ConnectionState", "wire messages"])

prop("C07", "Application data is delivered exactly as written, or not at all",
 "Over TLS, in each direction the bytes returned by Read are always a prefix of the bytes the peer passed to Write, for any sequence of write sizes and read buffer sizes, and on an undisturbed transport all of them are delivered and Write reports the full length. "
 "If records are modified, dropped, duplicated, reordered, truncated or injected, the reader reports an error or end of stream at that point and never returns any byte that breaks the prefix.",
 ["inputs", "fault_sequences", "schedules"],
 "All write/read size sequences (including empty and multi-record sizes), all transport segmentations, all record-level manipulations.",
 "Tests exchange a handful of short strings over a perfect pipe.",
 ["conn.go", "record-layer.go", "frame-reader.go"],
 [("AEAD with sequence-number nonce", "record-layer.go encrypt/decrypt"), ("readBuffer", "conn.go Read/readPartial"), ("fragmentation", "conn.go Write")],
 [("seq", "record sequence number", "record-layer.go cipherState")],
 ["Conn.Read", "Conn.Write", "the underlying net.Conn"])

prop("C08", "Traffic keys and nonces are never reused",
 "Over a connection's life, including early data, key updates and DTLS retransmission, no two records that an endpoint protects use the same key and nonce, the two directions and the epochs never share a key, and the record sequence numbers of each key are exactly 0, 1, 2, ... in transmission order (TLS) or strictly increasing within an epoch (DTLS). "
 "An endpoint refuses to protect more records than the sequence space allows rather than wrap.",
 ["histories", "schedules", "configurations"],
 "All histories of handshake modes, writes, alerts, retransmissions, early data and key updates in both directions.",
 "Tests check one fixed AEAD vector and one rekey.",
 ["record-layer.go", "conn.go", "handshake-layer.go", "dtls.go"],
 [("incrementSequenceNumber, computeNonce", "record-layer.go"), ("Rekey", "record-layer.go")],
 [("seq", "per-key record sequence number", "record-layer.go"), ("cipher", "current AEAD", "record-layer.go")],
 ["Config.RecordLayer", "AEADFactory in KeySet", "wire records"])

prop("C09", "Key updates never disturb the data stream, whatever interleaves",
 "Over TLS, any number of key updates, requested or not, started by either or both sides at any moment relative to each other and to reads and writes, including writes and updates issued from concurrent goroutines, leaves both data streams intact and both sides in lockstep on keys. "
 "A requested update is answered with exactly one update by the next time the receiver reads; an unrequested one is not answered; every record after a KeyUpdate message uses the next key generation.",
 ["schedules", "histories"],
 "All interleavings of Write, Read and SendKeyUpdate on the two endpoints, at the granularity of records reaching the transport.",
 "The one key-update test performs three sequential updates with no concurrent traffic.",
 ["state-machine.go", "conn.go", "record-layer.go"],
 [("stateConnected.KeyUpdate/ProcessMessage", "state-machine.go"), ("c.in / c.out locks", "conn.go")],
 [("clientTrafficSecret/serverTrafficSecret", "current secrets", "state-machine.go")],
 ["Conn.SendKeyUpdate", "Conn.Read", "Conn.Write", "wire records"])

prop("C10", "0-RTT data is all-or-nothing and never delivered when rejected",
 "When the server accepts early data, what its application reads is exactly the early bytes the client wrote, once and in order, followed by the 1-RTT bytes; when the server does not accept (no ticket known, early data not allowed, no PSK) none of it is ever delivered and the handshake still completes with intact 1-RTT data. "
 "Early data is only accepted under a PSK the server knows and when the server's configuration allows it, the client only sends it with a PSK, and both sides report the same verdict.",
 ["histories", "configurations", "schedules"],
 "All combinations of client early writes, server permission, PSK knowledge, PSK modes, client read/write timing and blocking modes.",
 "One test covers accepted early data with a single write; rejection with data in flight is never run.",
 ["server-state-machine.go", "client-state-machine.go", "conn.go", "negotiation.go"],
 [("serverStateWaitEOED, ReadPastEarlyData", "server-state-machine.go"), ("EarlyDataNegotiation", "negotiation.go"), ("earlyData buffer", "conn.go")],
 [("hsCtx.earlyData", "received early bytes", "conn.go")],
 ["Conn.Write before completion", "Conn.Read", "ConnectionState().UsingEarlyData"])

prop("C11", "Session resumption works and is never granted without the secret",
 "Every ticket a server issues can be used by the client that received it to resume with that server (same suite, same name), with fresh keys different from every other connection's, and resumption chains indefinitely. "
 "A PSK is used only if the client proved knowledge of it with a correct binder over this ClientHello, for an identity the server stored, with a compatible suite and mode; an unknown identity falls back to a full certificate handshake and a wrong or corrupted binder or implausible ticket age never results in a completed handshake.",
 ["histories", "inputs", "configurations"],
 "All histories of connections, tickets, cache contents and clocks over a shared client and server, and all corruptions of identity, binder and age.",
 "One test resumes once with intact state.",
 ["server-state-machine.go", "client-state-machine.go", "negotiation.go", "state-machine.go", "crypto.go"],
 [("PSKNegotiation, binder check", "negotiation.go"), ("NewSessionTicket / StorePSK", "state-machine.go, conn.go")],
 [("PSKs", "PSK cache", "conn.go Config")],
 ["ConnectionState().UsingPSK", "PreSharedKeyCache", "Conn.Handshake"])

prop("C12", "A server that demands a cookie proceeds only with a valid one, after one retry",
 "A server configured to require a cookie never sends a ServerHello or does key exchange work for a ClientHello without a cookie it issued itself and that its handler accepts for this connection; forged, corrupted or foreign cookies are refused. "
 "An honest client always completes after exactly one retry (in blocking, stateless and non-blocking operation, with and without a PSK, for every suite), an application value stored in the cookie comes back intact, and no client accepts a second HelloRetryRequest or one that asks for nothing new.",
 ["inputs", "histories", "configurations"],
 "All sequences of ClientHellos and cookies (own, stale, corrupted, foreign), all cookie configurations, all suites, new server instances between retry and second hello.",
 "Tests cover the honest path plus one cookie-handler rejection.",
 ["server-state-machine.go", "client-state-machine.go", "cookie-protector.go"],
 [("serverStateStart cookie handling", "server-state-machine.go"), ("DefaultCookieProtector AEAD", "cookie-protector.go")],
 [("cookie", "encrypted state of the first ClientHello", "server-state-machine.go cookie")],
 ["wire messages", "Conn.Handshake", "CookieHandler"])

prop("C13", "The DTLS handshake survives any finite loss, duplication and reordering",
 "Over a transport that may lose, duplicate, delay or reorder any finite set of handshake datagrams, two DTLS endpoints that keep polling complete the handshake and agree, and exactly the transmitted application payloads arrive afterwards. "
 "Handshake messages are reassembled from any order, overlap and duplication of fragments into exactly the message sent, each processed once and in order; unacknowledged flights are retransmitted and acknowledged ones are not.",
 ["fault_sequences", "schedules", "inputs"],
 "All finite loss/duplication/reordering patterns over the datagrams of a handshake, all fragmentations of a message, all timer interleavings.",
 "Tests drop one specific datagram once and reassemble a few hand-made fragment lists.",
 ["dtls.go", "handshake-layer.go", "timer.go", "conn.go", "record-layer.go"],
 [("retransmit and ACK timers", "dtls.go, timer.go"), ("fragment reassembly", "handshake-layer.go"), ("processAck", "dtls.go")],
 [("sentFragments", "unacked outgoing flight", "dtls.go"), ("frags/msgSeq", "incoming reassembly state", "handshake-layer.go")],
 ["Conn.Handshake", "Conn.GetDTLSTimeout", "datagrams on the net.Conn"])

prop("C14", "No peer input can crash or hang an endpoint",
 "Whatever bytes a peer sends at any point of a connection, in TLS or DTLS mode, Handshake and Read return in bounded time with data, an error or a would-block indication: they never panic, never loop without consuming input, and never wait on once the transport has reported its end. "
 "An error reported to a caller leaves other connections of the process unaffected.",
 ["inputs", "histories"],
 "All byte strings and all structured mutations of messages and records at every protocol state, encrypted or not.",
 "fuzz_test.go only runs the extension and message decoders on random bytes, never a live endpoint under attack.",
 ["record-layer.go", "handshake-layer.go", "frame-reader.go", "client-state-machine.go", "server-state-machine.go", "crypto.go", "extensions.go", "conn.go"],
 [("length checks in record and handshake readers", "record-layer.go, handshake-layer.go, frame-reader.go"), ("syntax.Unmarshal bounds", "syntax/decode.go")],
 [], ["Conn.Handshake", "Conn.Read"])

prop("C15", "A shared or cloned Config never leaks between connections",
 "A Config may be shared by any number of sequential or concurrent connections: what one connection negotiates, retries or fails at never changes the outcome of another, except through the PSK cache as documented, and applying defaults never overrides a value the user set. "
 "Clone returns a Config that behaves identically in every respect (every public field carries over) and whose fields can be set afterwards without affecting the original.",
 ["histories", "configurations", "schedules"],
 "All sets and orders of connections over one Config, all field settings, concurrent use.",
 "Tests use a Config for at most two connections and compare no fields of a clone.",
 ["conn.go", "client-state-machine.go", "server-state-machine.go"],
 [("Config.Clone, Config.Init and mutex", "conn.go")],
 [("Config", "shared settings", "conn.go")],
 ["Config fields by reflection", "Conn.Handshake outcomes"])

prop("C16", "Transport segmentation and API style do not change the outcome",
 "For the same endpoints and the same byte stream, the handshake result, the negotiated parameters and the delivered application data do not depend on how the transport splits or merges bytes, on how the peer coalesces or fragments the handshake messages of the handshake phase into records, on whether the API is used in blocking or non-blocking mode, or on how often non-blocking calls are made. "
 "A non-blocking call returns a would-block indication exactly when more input is needed and has no other effect.",
 ["schedules", "inputs"],
 "All segmentations of the byte stream, all legal record framings of a flight, all polling schedules.",
 "Tests use one in-memory pipe and fixed flights.",
 ["frame-reader.go", "record-layer.go", "handshake-layer.go", "conn.go"],
 [("frameReader", "frame-reader.go"), ("would-block propagation", "record-layer.go, handshake-layer.go, conn.go")],
 [("working/remainder", "partial frame", "frame-reader.go")],
 ["Conn.Handshake", "Conn.Read", "net.Conn.Read"])

prop("C17", "The presentation-language codec is exact and strict",
 "For every value of every supported type, encoding follows the declared layout (big-endian integers, head-length prefixes, varints, optionals, selectors) and decoding the result restores the value and reports exactly the consumed length, with trailing bytes untouched. "
 "For every byte string, decoding either fails with an error or yields a value that re-encodes to exactly the consumed bytes (save for the choice a layout leaves open: longer varints than needed, and the order and repetition of map entries), and values or lengths outside the declared min, max or head bounds are rejected in both directions.",
 ["inputs", "programs"],
 "All small type descriptors (structs, integers, arrays, slices with head/min/max, varint, optional pointers, nesting) and all values and byte strings over them up to a bound.",
 "Tests cover a table of hand-picked type/value pairs.",
 ["syntax/encode.go", "syntax/decode.go", "syntax/tags.go"],
 [("typeEncoder/typeDecoder", "syntax/encode.go, syntax/decode.go"), ("parseTag", "syntax/tags.go")],
 [], ["syntax.Marshal", "syntax.Unmarshal"])

prop("C18", "Keys, MACs and exporters follow the TLS 1.3 key schedule",
 "Over TLS, all secrets mint derives, for every suite, group and mode (certificate, PSK, PSK-DHE, 0-RTT, HelloRetryRequest, resumption, key update, exporter), equal those the TLS 1.3 key schedule (RFC 8446 section 7) derives from the same shared inputs and the messages on the wire. "
 "An independent TLS 1.3 implementation given the same transcript can therefore read every record mint sends and have every record accepted, verify every Finished, binder and signature, and compute the same exporters and resumption PSKs.",
 ["inputs", "configurations", "histories"],
 "All combinations of suite, group, mode and post-handshake history.",
 "mint only ever talks to itself in the tests, so symmetric deviations from the key schedule are invisible.",
 ["crypto.go", "client-state-machine.go", "server-state-machine.go", "state-machine.go", "conn.go"],
 [("HkdfExpandLabel, deriveSecret, makeTrafficKeys, computeFinishedData", "crypto.go"), ("secret derivations in state transitions", "client-state-machine.go, server-state-machine.go")],
 [("secrets", "early/handshake/master and traffic secrets", "client-state-machine.go, server-state-machine.go")],
 ["wire records", "Config.RecordLayer", "Conn.ComputeExporter"])

prop("C19", "Alerts are well-formed, truthful and honoured",
 "Every alert an endpoint puts on the wire is a two-byte level-and-description record under the current keys, fatal for errors. "
 "A received close_notify makes Read report end of stream after all earlier data and nothing after it, a received fatal alert is surfaced as that error and terminates the handshake or the stream, and a received warning other than close_notify is ignored after the handshake and does not alter data.",
 ["inputs", "histories"],
 "All alert levels and descriptions, well- and malformed, at every point of the handshake and data phase, under every framing.",
 "alert_test.go checks a String method; no test reads an alert off the wire.",
 ["alert.go", "conn.go", "handshake-layer.go"],
 [("sendAlert, consumeRecord", "conn.go"), ("readRecord", "handshake-layer.go")],
 [], ["wire records", "Conn.Read", "Conn.Handshake"])

out = os.path.join(os.path.dirname(os.path.abspath(__file__)), "..", "properties.jsonl")
with open(out, "w") as f:
    for p in P: f.write(json.dumps(p) + "\n")
