#!/usr/bin/env python3
"""Writes /verif/known-findings.jsonl: one entry per genuine defect found (all so far repaired by a fix: commit of /repo)."""
import json, os, subprocess
F = [
("C01","cdd9604","a client accepted the selection of a pre-shared key it had never offered"),
("C01","c0567f8","failed key agreements and key-exchange modes that were not offered were accepted"),
("C14","7074902","keyAgreement panicked on points off the curve and degenerate shares"),
("C14","1b84ed4","an empty Certificate message of the server panicked the client"),
("C14","099cb36","alerts shorter than two bytes and records of padding only panicked the reader"),
("C06","ae69d94","the client accepted suites it had not offered; a HelloRetryRequest changed the shared Config; a second one was accepted"),
("C12","41f4918","cookie and HelloRetryRequest: transcript and binder after a retry, missing CookieProtector"),
("C06","2789587","pre-shared keys and key-exchange modes outside the configuration were used"),
("C10","e2b05bb","a server rejecting early data never finished the handshake"),
("C16","41eea0d","the non-blocking handshake reported would-block although records were available"),
("C10","cc1b074","early data in flight when the server answers with a HelloRetryRequest broke the handshake"),
("C19","c7c704d","alerts had level and description wrong or went out with the wrong keys"),
("C05","734107a","a failed handshake could be continued"),
("C19","398ac01","received alerts 253 to 255 were taken for mint's internal indications"),
("C19","aba4e09","an alert received during the handshake was not surfaced"),
("C09","54ff189","key updates and post-handshake messages raced with writes and reads"),
("C15","23f21b2","Clone lost RecordLayer"),
("C15","6fdccb5","the default cookie protector was set up without the lock"),
("C15","35e5114","the PSK cache was used without the lock"),
("C07","7a6ac96","full-size fragments were rejected by the peer"),
("C13","e3495c9","DTLS records of the previous epoch were decrypted with the wrong keys"),
("C16","010fc96","data that arrived together with a transport error was dropped"),
("C13","53c2e62","DTLS acknowledgements and retransmission"),
("C13","b238d64","DTLS acknowledgements and retransmission"),
("C13","bb6b788","DTLS timers"),
("C13","f347e1d","DTLS reassembly"),
("C13","7db9f50","DTLS cookie exchange with loss"),
("C18","7fd5cd1","exporter: context hash and bounds"),
("C18","beef8aa","key updates used the label of another draft"),
("C18","7630d29","context string of the client's CertificateVerify"),
("C01","ffb0a18","a client accepted ALPN and early data it had not offered in EncryptedExtensions"),
("C06","52540cf","a certificate was chosen with a scheme that does not fit its curve, or SHA-1"),
("C01","8abbd4b","a CertificateVerify with a scheme that was not offered was accepted"),
("C17","dbd84a0","the decoder panicked or never returned on some inputs"),
("C10","468aa1c","a client accepted early_data in EncryptedExtensions on a handshake without PSK"),
("C04","52c3917","protocol errors after the handshake read as end of stream"),
("C09","34d5d90","a KeyUpdate with an invalid request value was accepted"),
("C14","192cd2d","a DTLS endpoint panicked sending a record before the version was negotiated"),
("C10","9cc14fc","a full-size early data record in flight broke a handshake with a HelloRetryRequest"),
("C11","5907eb1","tickets of sessions without a common ALPN protocol could not be used"),
("C18","5fc9d9e","the binder of a ClientHello with a session ID did not verify"),
("C17","b80b2b4","varint values needing the top two bits of their type could be encoded but not decoded"),
("C17","a86b158","decoding a map whose entries are empty never returned"),
("C13","bf84b23","DTLS reads reported WouldBlock with further records of the datagram waiting"),
("C14","edcee4c","a flood of DTLS key updates made an endpoint send its whole queue again for each of them"),
("C04","d0b2abb","DTLS handshake messages received ahead of a key change were used after it"),
("C04","a76ba4b","messages behind a KeyUpdate in its record were accepted although they were not protected with the next keys"),
("C15","318a24b","connections that use clones of a Config at the same time (such as concurrent Dials) raced on the PSK map cache that the clones share"),
]
here = os.path.dirname(os.path.abspath(__file__))
with open(os.path.join(here, "..", "known-findings.jsonl"), "w") as f:
    for p, c, w in F:
        f.write(json.dumps({"property": p, "what": w, "fixed": c, "entry": "fixed: property=%s %s %s" % (p, c, w)}) + "\n")
