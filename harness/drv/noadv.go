package drv

import "verifharness/eut"

// After a record that the specification does not let advance the handshake (DTLS: wrong
// epoch, failed authentication) the rest of a flight that counts on it must not complete
// the handshake.

func notAdvanced(e *eut.EUT, feed []byte, before bool) string {
	if before {
		return "" // was connected all along; what Read returned has been judged
	}
	if e.IsConnected() {
		return "connected by a record that is not protected under the keys in use"
	}
	put(e, feed)
	res := e.Step()
	switch {
	case res.Out == eut.Panicked || res.Out == eut.Hung:
		return res.String()
	case res.Out == eut.Connected || e.IsConnected():
		return "completed after a message that was not protected under the keys in use"
	}
	return ""
}

// NotAdvanced judges a client after message m arrived in phase ph.
func (r *ClientRun) NotAdvanced(ph, m string, psk bool) string {
	next := ph
	switch {
	case m == "BadRec" || m == "App@plain":
		return notAdvanced(r.E, nil, ph == "CONNECTED")
	case m == "EE+SH.dhe":
		next = "WAIT_CERT_CR"
	case m == "EE@plain" && ph == "WAIT_EE":
		next = "WAIT_CERT_CR"
		if psk {
			next = "WAIT_FIN"
		}
	case m == "Cert@plain" && (ph == "WAIT_CERT_CR" || ph == "WAIT_CERT"):
		next = "WAIT_CV"
	case m == "CV@plain" && ph == "WAIT_CV":
		next = "WAIT_FIN"
	case m == "Fin@plain" || m == "Fin@app":
		return notAdvanced(r.E, nil, ph == "CONNECTED")
	}
	if ph == "CONNECTED" {
		return ""
	}
	return notAdvanced(r.E, r.Continue(next, psk), false)
}

// NotAdvanced judges a server after message m arrived in phase ph.
func (r *ServerRun) NotAdvanced(ph, m string) string {
	next := ph
	switch {
	case m == "BadRec" || m == "App@plain" || m == "Fin@plain" || m == "Fin@app":
		return notAdvanced(r.E, nil, ph == "CONNECTED")
	case m == "Cert+CH":
		r.drain()
		if r.P.RawPending() == 0 {
			return "" // no answer
		}
		r.onHello("CH.full")
		if len(r.Bad) > 0 || !r.neg {
			return ""
		}
		r.P.SkipSeq(1)
		r.P.Tr = append(r.P.Tr, r.early1...)
		next = "WAIT_CV"
	case m == "Cert@plain" && ph == "WAIT_CERT":
		next = "WAIT_CV"
	case m == "CV@plain" && ph == "WAIT_CV":
		next = "WAIT_FIN"
	}
	if ph == "CONNECTED" {
		return ""
	}
	return notAdvanced(r.E, r.Continue(next), false)
}
