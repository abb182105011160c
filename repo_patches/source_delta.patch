From cdd960401eef94386ba44c12c8793a3cd4ba5291 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:30:53 +0000
Subject: [PATCH 01/48] fix: client accepted a pre_shared_key selection it
 never offered, skipping server authentication

---
 client-state-machine.go | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/client-state-machine.go b/client-state-machine.go
index d8464a1..ae6a49f 100644
--- a/client-state-machine.go
+++ b/client-state-machine.go
@@ -454,7 +454,12 @@ func (state clientStateWaitSH) Next(hr handshakeMessageReader) (HandshakeState,
 		return nil, nil, AlertDecodeError
 	}
 
-	if foundExts[ExtensionTypePreSharedKey] && (serverPSK.SelectedIdentity == 0) {
+	if foundExts[ExtensionTypePreSharedKey] {
+		// The server can only select the one PSK that we offered
+		if state.earlySecret == nil || serverPSK.SelectedIdentity != 0 {
+			logf(logTypeHandshake, "[ClientStateWaitSH] Server selected a PSK that was not offered [%v]", serverPSK.SelectedIdentity)
+			return nil, nil, AlertIllegalParameter
+		}
 		state.Params.UsingPSK = true
 	}
 
@@ -495,6 +500,7 @@ func (state clientStateWaitSH) Next(hr handshakeMessageReader) (HandshakeState,
 		if params.Hash != state.earlyHash {
 			logf(logTypeCrypto, "Change of hash between early and normal init early=[%02x] suite=[%04x] hash=[%02x]",
 				state.earlyHash, suite, params.Hash)
+			return nil, nil, AlertIllegalParameter
 		}
 
 		earlySecret = state.earlySecret
-- 
2.43.0


From c0567f846e2a892ec305894b22650729d1f3c72c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:31:20 +0000
Subject: [PATCH 02/48] fix: client ignored key agreement failures and accepted
 key exchange modes it never offered

---
 client-state-machine.go | 26 +++++++++++++++++++++++++-
 1 file changed, 25 insertions(+), 1 deletion(-)

diff --git a/client-state-machine.go b/client-state-machine.go
index ae6a49f..9288804 100644
--- a/client-state-machine.go
+++ b/client-state-machine.go
@@ -473,7 +473,31 @@ func (state clientStateWaitSH) Next(hr handshakeMessageReader) (HandshakeState,
 		}
 
 		state.Params.UsingDH = true
-		dhSecret, _ = keyAgreement(sks.Group, sks.KeyExchange, priv)
+		dhSecret, err = keyAgreement(sks.Group, sks.KeyExchange, priv)
+		if err != nil {
+			logf(logTypeHandshake, "[ClientStateWaitSH] Key agreement failed [%v]", err)
+			return nil, nil, AlertIllegalParameter
+		}
+	}
+
+	// The server must use one of the key exchange modes we offered
+	if !state.Params.UsingPSK && !state.Params.UsingDH {
+		logf(logTypeHandshake, "[ClientStateWaitSH] Server selected neither PSK nor DH")
+		return nil, nil, AlertMissingExtension
+	}
+	if state.Params.UsingPSK {
+		mode := PSKModeKE
+		if state.Params.UsingDH {
+			mode = PSKModeDHEKE
+		}
+		offeredMode := false
+		for _, m := range state.Config.PSKModes {
+			offeredMode = offeredMode || (m == mode)
+		}
+		if !offeredMode {
+			logf(logTypeHandshake, "[ClientStateWaitSH] Server selected a PSK mode that was not offered [%v]", mode)
+			return nil, nil, AlertIllegalParameter
+		}
 	}
 
 	suite := sh.CipherSuite
-- 
2.43.0


From 7074902dfea9c20c9fcaf73412aea6c9c95359d1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:31:26 +0000
Subject: [PATCH 03/48] fix: keyAgreement panicked on off-curve points and
 accepted degenerate public keys

---
 crypto.go | 12 ++++++++++++
 1 file changed, 12 insertions(+)

diff --git a/crypto.go b/crypto.go
index 4fa59a2..ba351d0 100644
--- a/crypto.go
+++ b/crypto.go
@@ -268,6 +268,9 @@ func keyAgreement(group NamedGroup, pub []byte, priv []byte) ([]byte, error) {
 
 		crv := curveFromNamedGroup(group)
 		pubX, pubY := elliptic.Unmarshal(crv, pub)
+		if pubX == nil {
+			return nil, fmt.Errorf("tls.keyagreement: Public key is not on the curve")
+		}
 		x, _ := crv.Params().ScalarMult(pubX, pubY, priv)
 		xBytes := x.Bytes()
 
@@ -286,6 +289,11 @@ func keyAgreement(group NamedGroup, pub []byte, priv []byte) ([]byte, error) {
 		p := primeFromNamedGroup(group)
 		x := big.NewInt(0).SetBytes(priv)
 		Y := big.NewInt(0).SetBytes(pub)
+		// RFC 8446 4.2.8.1: 1 < Y < p-1
+		one := big.NewInt(1)
+		if Y.Cmp(one) <= 0 || Y.Cmp(big.NewInt(0).Sub(p, one)) >= 0 {
+			return nil, fmt.Errorf("tls.keyagreement: Public key out of range")
+		}
 		ZBytes := big.NewInt(0).Exp(Y, x, p).Bytes()
 
 		ret := make([]byte, numBytes)
@@ -302,6 +310,10 @@ func keyAgreement(group NamedGroup, pub []byte, priv []byte) ([]byte, error) {
 		copy(private[:], priv)
 		copy(public[:], pub)
 		curve25519.ScalarMult(&ret, &private, &public)
+		// RFC 8446 7.4.2: Reject the all-zero shared secret
+		if ret == [32]byte{} {
+			return nil, fmt.Errorf("tls.keyagreement: Low-order public key")
+		}
 
 		return ret[:], nil
 
-- 
2.43.0


From 1b84ed45443d5cef40fa3b09544f4ac817044979 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:31:31 +0000
Subject: [PATCH 04/48] fix: client panicked on an empty server Certificate

---
 client-state-machine.go | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/client-state-machine.go b/client-state-machine.go
index 9288804..6513523 100644
--- a/client-state-machine.go
+++ b/client-state-machine.go
@@ -848,6 +848,10 @@ func (state clientStateWaitCV) Next(hr handshakeMessageReader) (HandshakeState,
 	hcv := state.handshakeHash.Sum(nil)
 	logf(logTypeHandshake, "Handshake Hash to be verified: [%d] %x", len(hcv), hcv)
 
+	if len(state.serverCertificate.CertificateList) == 0 {
+		logf(logTypeHandshake, "[ClientStateWaitCV] Server did not provide a certificate")
+		return nil, nil, AlertDecodeError
+	}
 	serverPublicKey := state.serverCertificate.CertificateList[0].CertData.PublicKey
 	if err := certVerify.Verify(serverPublicKey, hcv); err != nil {
 		logf(logTypeHandshake, "[ClientStateWaitCV] Server signature failed to verify")
-- 
2.43.0


From 099cb3652b4e65b61e794571517deb5ad05dfdf7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:32:57 +0000
Subject: [PATCH 05/48] fix: short alerts and all-padding records panicked the
 reader

---
 handshake-layer.go | 2 +-
 record-layer.go    | 5 ++++-
 2 files changed, 5 insertions(+), 2 deletions(-)

diff --git a/handshake-layer.go b/handshake-layer.go
index ae11cb8..75ce66d 100644
--- a/handshake-layer.go
+++ b/handshake-layer.go
@@ -202,11 +202,11 @@ func (h *HandshakeLayer) readRecord() error {
 	}
 
 	if pt.contentType == RecordTypeAlert {
-		logf(logTypeIO, "read alert %v", pt.fragment[1])
 		if len(pt.fragment) < 2 {
 			h.sendAlert(AlertUnexpectedMessage)
 			return io.EOF
 		}
+		logf(logTypeIO, "read alert %v", pt.fragment[1])
 		return Alert(pt.fragment[1])
 	}
 
diff --git a/record-layer.go b/record-layer.go
index ccb90bd..b2b07e4 100644
--- a/record-layer.go
+++ b/record-layer.go
@@ -285,7 +285,10 @@ func (r *DefaultRecordLayer) decrypt(seq uint64, header []byte, pt *TLSPlaintext
 
 	// Find the padding boundary
 	padLen := 0
-	for ; padLen < decryptLen+1 && out.fragment[decryptLen-padLen-1] == 0; padLen++ {
+	for ; padLen < decryptLen && out.fragment[decryptLen-padLen-1] == 0; padLen++ {
+	}
+	if padLen == decryptLen {
+		return nil, 0, fmt.Errorf("tls.record.decrypt: No content type in record")
 	}
 
 	// Transfer the content type
-- 
2.43.0


From ae69d94006e4ac6d56118b43eb306312010ef854 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:37:28 +0000
Subject: [PATCH 06/48] fix: client accepted a suite it had not offered and let
 a HelloRetryRequest change the shared Config

---
 client-state-machine.go | 21 +++++++++++++++++----
 1 file changed, 17 insertions(+), 4 deletions(-)

diff --git a/client-state-machine.go b/client-state-machine.go
index 6513523..9bd0915 100644
--- a/client-state-machine.go
+++ b/client-state-machine.go
@@ -56,6 +56,7 @@ type clientStateStart struct {
 	Params ConnectionParameters
 
 	cookie            []byte
+	retrySuite        CipherSuite // the cipher suite selected in a HelloRetryRequest
 	firstClientHello  *HandshakeMessage
 	helloRetryRequest *HandshakeMessage
 	hsCtx             *HandshakeContext
@@ -107,6 +108,10 @@ func (state clientStateStart) Next(hr handshakeMessageReader) (HandshakeState, [
 		LegacyVersion: wireVersion(state.hsCtx.hIn),
 		CipherSuites:  state.Config.CipherSuites,
 	}
+	if state.helloRetryRequest != nil {
+		// Narrow the ciphersuites to the one selected in the HelloRetryRequest
+		ch.CipherSuites = []CipherSuite{state.retrySuite}
+	}
 	_, err := prng.Read(ch.Random[:])
 	if err != nil {
 		logf(logTypeHandshake, "[ClientStateStart] Error creating ClientHello random [%v]", err)
@@ -278,6 +283,8 @@ func (state clientStateStart) Next(hr handshakeMessageReader) (HandshakeState, [
 		OfferedDH:  offeredDH,
 		OfferedPSK: offeredPSK,
 
+		offeredSuites: ch.CipherSuites,
+
 		earlySecret: earlySecret,
 		earlyHash:   earlyHash,
 
@@ -308,6 +315,8 @@ type clientStateWaitSH struct {
 	OfferedPSK PreSharedKey
 	PSK        []byte
 
+	offeredSuites []CipherSuite
+
 	earlySecret []byte
 	earlyHash   crypto.Hash
 
@@ -361,9 +370,9 @@ func (state clientStateWaitSH) Next(hr handshakeMessageReader) (HandshakeState,
 		logf(logTypeHandshake, "[ClientStateWaitSH] unsupported version [%x]", supportedVersions.Versions[0])
 		return nil, nil, AlertProtocolVersion
 	}
-	// 3. Check that the server provided a supported ciphersuite
+	// 3. Check that the server provided a ciphersuite that we offered
 	supportedCipherSuite := false
-	for _, suite := range state.Config.CipherSuites {
+	for _, suite := range state.offeredSuites {
 		supportedCipherSuite = supportedCipherSuite || (suite == sh.CipherSuite)
 	}
 	if !supportedCipherSuite {
@@ -377,8 +386,11 @@ func (state clientStateWaitSH) Next(hr handshakeMessageReader) (HandshakeState,
 		// This is actually HRR.
 		hrr := sh
 
-		// Narrow the supported ciphersuites to the server-provided one
-		state.Config.CipherSuites = []CipherSuite{hrr.CipherSuite}
+		// A server gets to ask for one retry only
+		if state.helloRetryRequest != nil {
+			logf(logTypeHandshake, "[ClientStateWaitSH] Second HelloRetryRequest")
+			return nil, nil, AlertUnexpectedMessage
+		}
 
 		// Handle external extensions.
 		if state.Config.ExtensionHandler != nil {
@@ -425,6 +437,7 @@ func (state clientStateWaitSH) Next(hr handshakeMessageReader) (HandshakeState,
 			Opts:              state.Opts,
 			hsCtx:             state.hsCtx,
 			cookie:            serverCookie.Cookie,
+			retrySuite:        hrr.CipherSuite,
 			firstClientHello:  firstClientHello,
 			helloRetryRequest: hm,
 		}, []HandshakeAction{ResetOut{1}}, AlertNoAlert
-- 
2.43.0


From 41f491810ae3e507a8d1432e8d4b083a2915bf22 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:39:04 +0000
Subject: [PATCH 07/48] fix: cookie handling: HRR regenerated with the wrong
 suite, missing from binders and malformed message_hash; nil cookie protector
 panicked

---
 client-state-machine.go |  6 +++++-
 server-state-machine.go | 34 ++++++++++++++++------------------
 2 files changed, 21 insertions(+), 19 deletions(-)

diff --git a/client-state-machine.go b/client-state-machine.go
index 9bd0915..8b7dd47 100644
--- a/client-state-machine.go
+++ b/client-state-machine.go
@@ -245,6 +245,8 @@ func (state clientStateStart) Next(hr handshakeMessageReader) (HandshakeState, [
 		}
 
 		truncHash := params.Hash.New()
+		truncHash.Write(state.firstClientHello.Marshal())
+		truncHash.Write(state.helloRetryRequest.Marshal())
 		truncHash.Write(trunc)
 
 		binder := computeFinishedData(params, binderKey, truncHash.Sum(nil))
@@ -420,9 +422,11 @@ func (state clientStateWaitSH) Next(hr handshakeMessageReader) (HandshakeState,
 		params := cipherSuiteMap[hrr.CipherSuite]
 		h := params.Hash.New()
 		h.Write(state.clientHello.Marshal())
+		chHash := h.Sum(nil)
 		firstClientHello := &HandshakeMessage{
 			msgType: HandshakeTypeMessageHash,
-			body:    h.Sum(nil),
+			body:    chHash,
+			length:  uint32(len(chHash)),
 		}
 
 		state.hsCtx.receivedEndOfFlight()
diff --git a/server-state-machine.go b/server-state-machine.go
index e392a5d..46a8960 100644
--- a/server-state-machine.go
+++ b/server-state-machine.go
@@ -172,14 +172,19 @@ func (state serverStateStart) Next(hr handshakeMessageReader) (HandshakeState, [
 	// The client sent a cookie. So this is probably the second ClientHello (sent as a response to a HRR)
 	var firstClientHello *HandshakeMessage
 	var initialCipherSuite CipherSuiteParams // the cipher suite that was negotiated when sending the HelloRetryRequest
+	var helloRetryRequest *HandshakeMessage
 	if clientSentCookie {
+		if state.Config.CookieProtector == nil {
+			logf(logTypeHandshake, "[ServerStateStart] Client sent a cookie, but we never issue any")
+			return nil, nil, AlertIllegalParameter
+		}
 		plainCookie, err := state.Config.CookieProtector.DecodeToken(clientCookie.Cookie)
 		if err != nil {
 			logf(logTypeHandshake, fmt.Sprintf("[ServerStateStart] Error decoding token [%v]", err))
 			return nil, nil, AlertDecryptError
 		}
 		cookie := &cookie{}
-		if rb, err := syntax.Unmarshal(plainCookie, cookie); err != nil && rb != len(plainCookie) { // this should never happen
+		if rb, err := syntax.Unmarshal(plainCookie, cookie); err != nil || rb != len(plainCookie) { // this should never happen
 			logf(logTypeHandshake, fmt.Sprintf("[ServerStateStart] Error unmarshaling cookie [%v]", err))
 			return nil, nil, AlertInternalError
 		}
@@ -187,6 +192,7 @@ func (state serverStateStart) Next(hr handshakeMessageReader) (HandshakeState, [
 		firstClientHello = &HandshakeMessage{
 			msgType: HandshakeTypeMessageHash,
 			body:    cookie.ClientHelloHash,
+			length:  uint32(len(cookie.ClientHelloHash)),
 		}
 		// have the application validate its part of the cookie
 		if state.Config.CookieHandler != nil && !state.Config.CookieHandler.Validate(state.conn, cookie.ApplicationCookie) {
@@ -199,6 +205,13 @@ func (state serverStateStart) Next(hr handshakeMessageReader) (HandshakeState, [
 			logf(logTypeHandshake, fmt.Sprintf("[ServerStateStart] Cookie contained invalid cipher suite: %#x", cookie.CipherSuite))
 			return nil, nil, AlertInternalError
 		}
+		// Regenerate the HRR that carried this cookie. Its hash is part of the
+		// transcript and of the context for the PSK binders.
+		helloRetryRequest, err = state.generateHRR(initialCipherSuite.Suite,
+			ch.LegacySessionID, &CookieExtension{Cookie: clientCookie.Cookie})
+		if err != nil {
+			return nil, nil, AlertInternalError
+		}
 	}
 
 	if len(ch.LegacySessionID) != 0 && len(ch.LegacySessionID) != 32 {
@@ -218,14 +231,7 @@ func (state serverStateStart) Next(hr handshakeMessageReader) (HandshakeState, [
 		contextBase := []byte{}
 		if clientSentCookie {
 			contextBase = append(contextBase, firstClientHello.Marshal()...)
-			// fill in the cookie sent by the client. Needed to calculate the correct hash
-			cookieExt := &CookieExtension{Cookie: clientCookie.Cookie}
-			hrr, err := state.generateHRR(params.Suite,
-				ch.LegacySessionID, cookieExt)
-			if err != nil {
-				return nil, nil, AlertInternalError
-			}
-			contextBase = append(contextBase, hrr.Marshal()...)
+			contextBase = append(contextBase, helloRetryRequest.Marshal()...)
 		}
 		chTrunc, err := ch.Truncated()
 		if err != nil {
@@ -255,7 +261,6 @@ func (state serverStateStart) Next(hr handshakeMessageReader) (HandshakeState, [
 		return nil, nil, AlertInternalError
 	}
 
-	var helloRetryRequest *HandshakeMessage
 	if state.Config.RequireCookie {
 		// Send a cookie if required
 		// NB: Need to do this here because it's after ciphersuite selection, which
@@ -295,16 +300,9 @@ func (state serverStateStart) Next(hr handshakeMessageReader) (HandshakeState, [
 				}
 				cookieExt = &CookieExtension{Cookie: cookieData}
 			}
-		} else {
-			cookieExt = &CookieExtension{Cookie: clientCookie.Cookie}
 		}
 
-		// Generate a HRR. We will need it in both of the two cases:
-		// 1. We need to send a Cookie. Then this HRR will be sent on the wire
-		// 2. We need to validate a cookie. Then we need its hash
-		// Ignoring errors because everything here is newly constructed, so there
-		// shouldn't be marshal errors
-		if shouldSendHRR || clientSentCookie {
+		if shouldSendHRR {
 			helloRetryRequest, err = state.generateHRR(connParams.CipherSuite,
 				ch.LegacySessionID, cookieExt)
 			if err != nil {
-- 
2.43.0


From 2789587ba4c772e35b523b083f7146d9cbb639f3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:39:49 +0000
Subject: [PATCH 08/48] fix: PSKs and PSK modes outside an endpoint's
 configuration were used or broke the handshake

---
 client-state-machine.go | 12 ++++++++----
 negotiation.go          |  5 +----
 server-state-machine.go | 25 +++++++++++++++++++++++--
 3 files changed, 32 insertions(+), 10 deletions(-)

diff --git a/client-state-machine.go b/client-state-machine.go
index 8b7dd47..31f1773 100644
--- a/client-state-machine.go
+++ b/client-state-machine.go
@@ -168,9 +168,9 @@ func (state clientStateStart) Next(hr handshakeMessageReader) (HandshakeState, [
 	var earlySecret []byte
 	var clientEarlyTrafficKeys KeySet
 	var clientHello *HandshakeMessage
-	if key, ok := state.Config.PSKs.Get(state.Opts.ServerName); ok {
-		offeredPSK = key
-
+	key, havePSK := state.Config.PSKs.Get(state.Opts.ServerName)
+	compatibleSuites := []CipherSuite{}
+	if havePSK {
 		// Narrow ciphersuites to ones that match PSK hash
 		params, ok := cipherSuiteMap[key.CipherSuite]
 		if !ok {
@@ -178,12 +178,16 @@ func (state clientStateStart) Next(hr handshakeMessageReader) (HandshakeState, [
 			return nil, nil, AlertInternalError
 		}
 
-		compatibleSuites := []CipherSuite{}
 		for _, suite := range ch.CipherSuites {
 			if cipherSuiteMap[suite].Hash == params.Hash {
 				compatibleSuites = append(compatibleSuites, suite)
 			}
 		}
+	}
+	// Don't offer a PSK that we couldn't use with any of our ciphersuites
+	if havePSK && len(compatibleSuites) > 0 {
+		offeredPSK = key
+		params := cipherSuiteMap[key.CipherSuite]
 		ch.CipherSuites = compatibleSuites
 
 		// TODO(ekr@rtfm.com): Check that the ticket can be used for early
diff --git a/negotiation.go b/negotiation.go
index 7463953..a0dda7a 100644
--- a/negotiation.go
+++ b/negotiation.go
@@ -177,10 +177,7 @@ func EarlyDataNegotiation(usingPSK, gotEarlyData, allowEarlyData bool) (using bo
 
 func CipherSuiteNegotiation(psk *PreSharedKey, offered, supported []CipherSuite) (CipherSuite, error) {
 	for _, s1 := range offered {
-		if psk != nil {
-			if s1 == psk.CipherSuite {
-				return s1, nil
-			}
+		if psk != nil && s1 != psk.CipherSuite {
 			continue
 		}
 
diff --git a/server-state-machine.go b/server-state-machine.go
index 46a8960..c73dfdf 100644
--- a/server-state-machine.go
+++ b/server-state-machine.go
@@ -245,10 +245,30 @@ func (state serverStateStart) Next(hr handshakeMessageReader) (HandshakeState, [
 			logf(logTypeHandshake, "[ServerStateStart] Error in PSK negotiation [%v]", err)
 			return nil, nil, AlertInternalError
 		}
+
+		// A PSK is only of use if its ciphersuite can be negotiated
+		if canDoPSK {
+			_, err = CipherSuiteNegotiation(psk, ch.CipherSuites, state.Config.CipherSuites)
+			canDoPSK = (err == nil)
+		}
+	}
+
+	// Only consider the PSK modes that we are configured to use ourselves
+	pskModes := []PSKKeyExchangeMode{}
+	for _, clientMode := range clientPSKModes.KEModes {
+		for _, mode := range state.Config.PSKModes {
+			if clientMode == mode {
+				pskModes = append(pskModes, mode)
+				break
+			}
+		}
 	}
 
 	// Figure out if we actually should do DH / PSK
-	connParams.UsingDH, connParams.UsingPSK = PSKModeNegotiation(canDoDH, canDoPSK, clientPSKModes.KEModes)
+	connParams.UsingDH, connParams.UsingPSK = PSKModeNegotiation(canDoDH, canDoPSK, pskModes)
+	if !connParams.UsingPSK {
+		psk = nil
+	}
 
 	// Select a ciphersuite
 	connParams.CipherSuite, err = CipherSuiteNegotiation(psk, ch.CipherSuites, state.Config.CipherSuites)
@@ -359,7 +379,8 @@ func (state serverStateStart) Next(hr handshakeMessageReader) (HandshakeState, [
 	// Figure out if we're going to do early data
 	var clientEarlyTrafficSecret []byte
 	connParams.ClientSendingEarlyData = foundExts[ExtensionTypeEarlyData]
-	connParams.UsingEarlyData, connParams.RejectedEarlyData = EarlyDataNegotiation(connParams.UsingPSK, foundExts[ExtensionTypeEarlyData], state.Config.AllowEarlyData)
+	// Early data is always protected with the first PSK the client offered
+	connParams.UsingEarlyData, connParams.RejectedEarlyData = EarlyDataNegotiation(connParams.UsingPSK && selectedPSK == 0, foundExts[ExtensionTypeEarlyData], state.Config.AllowEarlyData)
 	if connParams.UsingEarlyData {
 		h := params.Hash.New()
 		h.Write(clientHello.Marshal())
-- 
2.43.0


From e2b05bb979c4d4f6e061ade4405e60e228679443 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:40:07 +0000
Subject: [PATCH 09/48] fix: a server rejecting early data looped forever

---
 server-state-machine.go | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/server-state-machine.go b/server-state-machine.go
index c73dfdf..522372a 100644
--- a/server-state-machine.go
+++ b/server-state-machine.go
@@ -774,9 +774,10 @@ func (state serverStateNegotiated) Next(_ handshakeMessageReader) (HandshakeStat
 		exporterSecret:               exporterSecret,
 	}
 	if state.Params.RejectedEarlyData {
+		waitFlight2 := nextState
 		nextState = serverStateReadPastEarlyData{
 			hsCtx: state.hsCtx,
-			next:  &nextState,
+			next:  &waitFlight2,
 		}
 	}
 	return nextState, toSend, AlertNoAlert
-- 
2.43.0


From 41eea0d051878a4e4e008eadf43e74510d04ebae Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:40:32 +0000
Subject: [PATCH 10/48] fix: non-blocking handshake reads reported WouldBlock
 with further records available

---
 handshake-layer.go | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/handshake-layer.go b/handshake-layer.go
index 75ce66d..263de5a 100644
--- a/handshake-layer.go
+++ b/handshake-layer.go
@@ -372,7 +372,8 @@ func (h *HandshakeLayer) ReadMessage() (*HandshakeMessage, error) {
 		if err == nil {
 			break
 		}
-		if err != nil && (h.nonblocking || err != AlertWouldBlock) {
+		// If the record didn't complete a message, try to read another one.
+		if err != AlertWouldBlock {
 			return nil, err
 		}
 	}
-- 
2.43.0


From cc1b0740d935607021584ad79e8f2ab5f70b8a78 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:40:37 +0000
Subject: [PATCH 11/48] fix: early data in flight broke a handshake with
 HelloRetryRequest

---
 conn.go            | 3 +++
 handshake-layer.go | 6 ++++++
 2 files changed, 9 insertions(+)

diff --git a/conn.go b/conn.go
index ccf8dc1..eb870cf 100644
--- a/conn.go
+++ b/conn.go
@@ -685,6 +685,9 @@ func (c *Conn) HandshakeSetup() Alert {
 				return AlertInternalError
 			}
 		}
+		// Early data sent along with the first ClientHello may still be in flight,
+		// even to a new Conn if the retry is stateless.
+		c.hsCtx.hIn.skipEarlyData = c.config.RequireCookie
 		state = serverStateStart{Config: c.config, conn: c, hsCtx: c.hsCtx}
 	}
 
diff --git a/handshake-layer.go b/handshake-layer.go
index 263de5a..d980f83 100644
--- a/handshake-layer.go
+++ b/handshake-layer.go
@@ -128,6 +128,7 @@ type HandshakeLayer struct {
 	sent           []*HandshakeMessage // Sent messages for DTLS
 	recvdRecords   []uint64            // Records we have received.
 	maxFragmentLen int
+	skipEarlyData  bool // Ignore 0-RTT records sent before a HelloRetryRequest was received
 }
 
 type handshakeLayerFrameDetails struct {
@@ -187,6 +188,11 @@ func (h *HandshakeLayer) readRecord() error {
 		return err
 	}
 
+	if h.skipEarlyData && pt.contentType == RecordTypeApplicationData && h.conn.Epoch() == EpochClear {
+		logf(logTypeHandshake, "Skipping early data record after HelloRetryRequest")
+		return nil
+	}
+
 	switch pt.contentType {
 	case RecordTypeHandshake, RecordTypeAlert, RecordTypeAck:
 	default:
-- 
2.43.0


From c7c704de4b0bd75808da7ee9cf109b270fd89c98 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:41:20 +0000
Subject: [PATCH 12/48] fix: alerts were sent with level and description
 swapped, or through the read side

---
 conn.go            | 2 +-
 handshake-layer.go | 7 ++++++-
 2 files changed, 7 insertions(+), 2 deletions(-)

diff --git a/conn.go b/conn.go
index eb870cf..0d92aff 100644
--- a/conn.go
+++ b/conn.go
@@ -521,7 +521,7 @@ func (c *Conn) sendAlert(err Alert) error {
 		level = AlertLevelError
 	}
 
-	buf := []byte{byte(err), byte(level)}
+	buf := []byte{byte(level), byte(err)}
 	c.out.WriteRecord(&TLSPlaintext{
 		contentType: RecordTypeAlert,
 		fragment:    buf,
diff --git a/handshake-layer.go b/handshake-layer.go
index d980f83..607b500 100644
--- a/handshake-layer.go
+++ b/handshake-layer.go
@@ -239,7 +239,12 @@ func (h *HandshakeLayer) sendAlert(err Alert) error {
 	tmp := make([]byte, 2)
 	tmp[0] = AlertLevelError
 	tmp[1] = byte(err)
-	h.conn.WriteRecord(&TLSPlaintext{
+	// Alerts have to go out on the write side, even if the read side raised them.
+	conn := h.conn
+	if h.ctx != nil && h.ctx.hOut != nil {
+		conn = h.ctx.hOut.conn
+	}
+	conn.WriteRecord(&TLSPlaintext{
 		contentType: RecordTypeAlert,
 		fragment:    tmp},
 	)
-- 
2.43.0


From 734107a27dec9a1aa140aca1e1b1e8f565a5508a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:41:45 +0000
Subject: [PATCH 13/48] fix: a failed handshake could be resumed by calling
 Handshake again

---
 conn.go | 37 +++++++++++++++++++++++++++++--------
 1 file changed, 29 insertions(+), 8 deletions(-)

diff --git a/conn.go b/conn.go
index 0d92aff..7b121ce 100644
--- a/conn.go
+++ b/conn.go
@@ -269,6 +269,7 @@ type Conn struct {
 	hState            HandshakeState
 	handshakeMutex    sync.Mutex
 	handshakeAlert    Alert
+	handshakeFailed   bool // handshakeAlert is the reason
 	handshakeComplete bool
 
 	readBuffer []byte
@@ -412,6 +413,10 @@ func readPartial(in *[]byte, buffer []byte) int {
 // Read application data up to the size of buffer.  Handshake and alert records
 // are consumed by the Conn object directly.
 func (c *Conn) Read(buffer []byte) (int, error) {
+	if c.handshakeFailed {
+		return 0, c.handshakeAlert
+	}
+
 	if _, connected := c.hState.(stateConnected); !connected {
 		// Clients can't call Read prior to handshake completion.
 		if c.isClient {
@@ -729,17 +734,29 @@ func (r *handshakeMessageReaderImpl) ReadMessage() (*HandshakeMessage, Alert) {
 // determines whether a client or server handshake is performed.  If a
 // handshake has already been performed, then its result will be returned.
 func (c *Conn) Handshake() Alert {
+	// TODO Lock handshakeMutex
+	if c.handshakeFailed {
+		logf(logTypeHandshake, "Pre-existing handshake error: %v", c.handshakeAlert)
+		return c.handshakeAlert
+	}
+
+	alert := c.handshake()
+	switch alert {
+	case AlertNoAlert, AlertWouldBlock, AlertStatelessRetry:
+	default:
+		// There is no way to recover from a failed handshake
+		c.handshakeFailed = true
+		c.handshakeAlert = alert
+	}
+	return alert
+}
+
+func (c *Conn) handshake() Alert {
 	label := "[server]"
 	if c.isClient {
 		label = "[client]"
 	}
 
-	// TODO Lock handshakeMutex
-	// TODO Remove CloseNotify hack
-	if c.handshakeAlert != AlertNoAlert && c.handshakeAlert != AlertCloseNotify {
-		logf(logTypeHandshake, "Pre-existing handshake error: %v", c.handshakeAlert)
-		return c.handshakeAlert
-	}
 	if c.handshakeComplete {
 		return AlertNoAlert
 	}
@@ -840,7 +857,7 @@ func (c *Conn) Handshake() Alert {
 }
 
 func (c *Conn) SendKeyUpdate(requestUpdate bool) error {
-	if !c.handshakeComplete {
+	if !c.handshakeComplete || c.handshakeFailed {
 		return fmt.Errorf("Cannot update keys until after handshake")
 	}
 
@@ -877,7 +894,7 @@ func (c *Conn) GetHsState() State {
 
 func (c *Conn) ComputeExporter(label string, context []byte, keyLength int) ([]byte, error) {
 	_, connected := c.hState.(stateConnected)
-	if !connected {
+	if !connected || c.handshakeFailed {
 		return nil, fmt.Errorf("Cannot compute exporter when state is not connected")
 	}
 
@@ -910,6 +927,10 @@ func (c *Conn) ConnectionState() ConnectionState {
 }
 
 func (c *Conn) Writable() bool {
+	if c.handshakeFailed {
+		return false
+	}
+
 	// If we're connected, we're writable.
 	if _, connected := c.hState.(stateConnected); connected {
 		return true
-- 
2.43.0


From 398ac016e88c9433e2e435d01d7ecc3ff90130c7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:42:11 +0000
Subject: [PATCH 14/48] fix: a peer's alert could pass for an internal
 indication such as WouldBlock

---
 alert.go           | 11 +++++++++++
 conn.go            |  2 +-
 handshake-layer.go |  2 +-
 3 files changed, 13 insertions(+), 2 deletions(-)

diff --git a/alert.go b/alert.go
index 430e455..7b5d7a4 100644
--- a/alert.go
+++ b/alert.go
@@ -99,3 +99,14 @@ func (e Alert) String() string {
 func (e Alert) Error() string {
 	return e.String()
 }
+
+// receivedAlert converts an alert description from the wire. The values that
+// we use as internal indications have no meaning there.
+func receivedAlert(description byte) Alert {
+	switch alert := Alert(description); alert {
+	case AlertNoAlert, AlertWouldBlock, AlertStatelessRetry:
+		return AlertIllegalParameter
+	default:
+		return alert
+	}
+}
diff --git a/conn.go b/conn.go
index 7b121ce..4bb44b9 100644
--- a/conn.go
+++ b/conn.go
@@ -379,7 +379,7 @@ func (c *Conn) consumeRecord() error {
 		case AlertLevelWarning:
 			// drop on the floor
 		case AlertLevelError:
-			return Alert(pt.fragment[1])
+			return receivedAlert(pt.fragment[1])
 		default:
 			c.sendAlert(AlertUnexpectedMessage)
 			return io.EOF
diff --git a/handshake-layer.go b/handshake-layer.go
index 607b500..5bdc1ef 100644
--- a/handshake-layer.go
+++ b/handshake-layer.go
@@ -213,7 +213,7 @@ func (h *HandshakeLayer) readRecord() error {
 			return io.EOF
 		}
 		logf(logTypeIO, "read alert %v", pt.fragment[1])
-		return Alert(pt.fragment[1])
+		return receivedAlert(pt.fragment[1])
 	}
 
 	assert(h.ctx.hIn.conn != nil)
-- 
2.43.0


From aba4e09080de7f836c55078b31fdeaaf127d992d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:42:53 +0000
Subject: [PATCH 15/48] fix: an alert received during the handshake was always
 reported as close_notify

---
 conn.go | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/conn.go b/conn.go
index 4bb44b9..b017908 100644
--- a/conn.go
+++ b/conn.go
@@ -718,6 +718,10 @@ func (r *handshakeMessageReaderImpl) ReadMessage() (*HandshakeMessage, Alert) {
 		if err == AlertWouldBlock {
 			return nil, AlertWouldBlock
 		}
+		if alert, ok := err.(Alert); ok {
+			logf(logTypeHandshake, "Alert while reading message: %v", alert)
+			return nil, alert
+		}
 		if err != nil {
 			logf(logTypeHandshake, "Error reading message: %v", err)
 			return nil, AlertCloseNotify
-- 
2.43.0


From 54ff189930bb60ae026b2ae1f092c38c40dc5370 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:42:59 +0000
Subject: [PATCH 16/48] fix: key updates and alerts raced with concurrent
 writes and each other

---
 conn.go | 83 ++++++++++++++++++++++++++++++++++++++-------------------
 1 file changed, 56 insertions(+), 27 deletions(-)

diff --git a/conn.go b/conn.go
index b017908..40a11ea 100644
--- a/conn.go
+++ b/conn.go
@@ -304,6 +304,35 @@ func NewConn(conn net.Conn, config *Config, isClient bool) *Conn {
 	return c
 }
 
+// processPostHandshakeMessage updates the connected state.  This can involve
+// sending, so it needs to be serialized with writers and other key updates.
+func (c *Conn) processPostHandshakeMessage(hm *HandshakeMessage) Alert {
+	c.out.Lock()
+	defer c.out.Unlock()
+
+	state, actions, alert := c.state.ProcessMessage(hm)
+	if alert != AlertNoAlert {
+		logf(logTypeHandshake, "Error in state transition: %v", alert)
+		return alert
+	}
+
+	for _, action := range actions {
+		alert = c.takeAction(action)
+		if alert != AlertNoAlert {
+			logf(logTypeHandshake, "Error during handshake actions: %v", alert)
+			return alert
+		}
+	}
+
+	connectedState, connected := state.(stateConnected)
+	if !connected {
+		logf(logTypeHandshake, "Disconnected after state transition: %v", alert)
+		return AlertInternalError
+	}
+	c.state = connectedState
+	return AlertNoAlert
+}
+
 // Read up
 func (c *Conn) consumeRecord() error {
 	pt, err := c.in.ReadRecord()
@@ -339,26 +368,7 @@ func (c *Conn) consumeRecord() error {
 			// XXX: If we want to support more advanced cases, e.g., post-handshake
 			// authentication, we'll need to allow transitions other than
 			// Connected -> Connected
-			state, actions, alert := c.state.ProcessMessage(hm)
-			if alert != AlertNoAlert {
-				logf(logTypeHandshake, "Error in state transition: %v", alert)
-				c.sendAlert(alert)
-				return io.EOF
-			}
-
-			for _, action := range actions {
-				alert = c.takeAction(action)
-				if alert != AlertNoAlert {
-					logf(logTypeHandshake, "Error during handshake actions: %v", alert)
-					c.sendAlert(alert)
-					return io.EOF
-				}
-			}
-
-			var connected bool
-			c.state, connected = state.(stateConnected)
-			if !connected {
-				logf(logTypeHandshake, "Disconnected after state transition: %v", alert)
+			if alert := c.processPostHandshakeMessage(hm); alert != AlertNoAlert {
 				c.sendAlert(alert)
 				return io.EOF
 			}
@@ -390,6 +400,8 @@ func (c *Conn) consumeRecord() error {
 			logf(logTypeHandshake, "Received ACK in TLS mode")
 			return AlertUnexpectedMessage
 		}
+		c.out.Lock()
+		defer c.out.Unlock()
 		return c.hsCtx.processAck(pt.fragment)
 
 	case RecordTypeApplicationData:
@@ -448,7 +460,10 @@ func (c *Conn) Read(buffer []byte) (int, error) {
 
 	// Run our timers.
 	if c.config.UseDTLS {
-		if err := c.hsCtx.timers.check(time.Now()); err != nil {
+		c.out.Lock()
+		err := c.hsCtx.timers.check(time.Now())
+		c.out.Unlock()
+		if err != nil {
 			return 0, AlertInternalError
 		}
 	}
@@ -513,10 +528,12 @@ func (c *Conn) Write(buffer []byte) (int, error) {
 }
 
 // sendAlert sends a TLS alert message.
-// c.out.Mutex <= L.
+// The caller must not hold the lock on c.out.
 func (c *Conn) sendAlert(err Alert) error {
 	c.handshakeMutex.Lock()
 	defer c.handshakeMutex.Unlock()
+	c.out.Lock()
+	defer c.out.Unlock()
 
 	var level int
 	switch err {
@@ -870,23 +887,35 @@ func (c *Conn) SendKeyUpdate(requestUpdate bool) error {
 		request = KeyUpdateRequested
 	}
 
+	if alert := c.updateKeys(request); alert != AlertNoAlert {
+		c.sendAlert(alert)
+		return fmt.Errorf("Alert during key update: %v", alert)
+	}
+
+	return nil
+}
+
+// updateKeys needs to be serialized with writers and other key updates, so
+// that all records following the KeyUpdate use the new keys.
+func (c *Conn) updateKeys(request KeyUpdateRequest) Alert {
+	c.out.Lock()
+	defer c.out.Unlock()
+
 	// Create the key update and update state
 	actions, alert := c.state.KeyUpdate(request)
 	if alert != AlertNoAlert {
-		c.sendAlert(alert)
-		return fmt.Errorf("Alert while generating key update: %v", alert)
+		return alert
 	}
 
 	// Take actions (send key update and rekey)
 	for _, action := range actions {
 		alert = c.takeAction(action)
 		if alert != AlertNoAlert {
-			c.sendAlert(alert)
-			return fmt.Errorf("Alert during key update actions: %v", alert)
+			return alert
 		}
 	}
 
-	return nil
+	return AlertNoAlert
 }
 
 func (c *Conn) GetHsState() State {
-- 
2.43.0


From 23f21b2345f3ac95f23f5d2cfacb36cdaa6ccf36 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:43:26 +0000
Subject: [PATCH 17/48] fix: Config.Clone dropped the RecordLayer

---
 conn.go | 1 +
 1 file changed, 1 insertion(+)

diff --git a/conn.go b/conn.go
index 40a11ea..d552b36 100644
--- a/conn.go
+++ b/conn.go
@@ -169,6 +169,7 @@ func (c *Config) Clone() *Config {
 		PSKModes:              c.PSKModes,
 		NonBlocking:           c.NonBlocking,
 		UseDTLS:               c.UseDTLS,
+		RecordLayer:           c.RecordLayer,
 	}
 }
 
-- 
2.43.0


From 6fdccb5cf94bb425cbb20a0caa6bb91511e491f4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:43:31 +0000
Subject: [PATCH 18/48] fix: concurrent connections replaced each other's
 default cookie protector

---
 conn.go | 34 ++++++++++++++++++++++++----------
 1 file changed, 24 insertions(+), 10 deletions(-)

diff --git a/conn.go b/conn.go
index d552b36..9cf13b5 100644
--- a/conn.go
+++ b/conn.go
@@ -199,6 +199,27 @@ func (c *Config) Init(isClient bool) error {
 	return nil
 }
 
+// initCookieProtector sets a default cookie protector, unless there is one.
+// All the connections that share this Config need to use the same one.
+func (c *Config) initCookieProtector(nonblocking bool) error {
+	c.mutex.Lock()
+	defer c.mutex.Unlock()
+
+	if c.CookieProtector != nil {
+		return nil
+	}
+	logf(logTypeHandshake, "RequireCookie set, but no CookieProtector provided. Using default cookie protector. Stateless Retry not possible.")
+	if nonblocking {
+		return fmt.Errorf("Not possible in non-blocking mode.")
+	}
+	protector, err := NewDefaultCookieProtector()
+	if err != nil {
+		return err
+	}
+	c.CookieProtector = protector
+	return nil
+}
+
 func (c *Config) ValidForServer() bool {
 	return (reflect.ValueOf(c.PSKs).IsValid() && c.PSKs.Size() > 0) ||
 		(len(c.Certificates) > 0 &&
@@ -695,16 +716,9 @@ func (c *Conn) HandshakeSetup() Alert {
 			}
 		}
 	} else {
-		if c.config.RequireCookie && c.config.CookieProtector == nil {
-			logf(logTypeHandshake, "RequireCookie set, but no CookieProtector provided. Using default cookie protector. Stateless Retry not possible.")
-			if c.config.NonBlocking {
-				logf(logTypeHandshake, "Not possible in non-blocking mode.")
-				return AlertInternalError
-			}
-			var err error
-			c.config.CookieProtector, err = NewDefaultCookieProtector()
-			if err != nil {
-				logf(logTypeHandshake, "Error initializing cookie source: %v", alert)
+		if c.config.RequireCookie {
+			if err := c.config.initCookieProtector(c.config.NonBlocking); err != nil {
+				logf(logTypeHandshake, "Error initializing cookie source: %v", err)
 				return AlertInternalError
 			}
 		}
-- 
2.43.0


From 35e51144d6d8d559ef1dfbc905ff57b208192a8b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:43:57 +0000
Subject: [PATCH 19/48] fix: connections sharing a Config accessed its PSK
 cache concurrently

---
 client-state-machine.go | 2 ++
 conn.go                 | 3 +++
 server-state-machine.go | 2 ++
 3 files changed, 7 insertions(+)

diff --git a/client-state-machine.go b/client-state-machine.go
index 31f1773..22204a4 100644
--- a/client-state-machine.go
+++ b/client-state-machine.go
@@ -168,7 +168,9 @@ func (state clientStateStart) Next(hr handshakeMessageReader) (HandshakeState, [
 	var earlySecret []byte
 	var clientEarlyTrafficKeys KeySet
 	var clientHello *HandshakeMessage
+	state.Config.mutex.RLock() // other connections may be adding PSKs
 	key, havePSK := state.Config.PSKs.Get(state.Opts.ServerName)
+	state.Config.mutex.RUnlock()
 	compatibleSuites := []CipherSuite{}
 	if havePSK {
 		// Narrow ciphersuites to ones that match PSK hash
diff --git a/conn.go b/conn.go
index 9cf13b5..3bb1ec8 100644
--- a/conn.go
+++ b/conn.go
@@ -669,6 +669,9 @@ func (c *Conn) takeAction(actionGeneric HandshakeAction) Alert {
 
 	case StorePSK:
 		logf(logTypeHandshake, "%s Storing new session ticket with identity [%x]", label, action.PSK.Identity)
+		// Other connections may be using the same cache
+		c.config.mutex.Lock()
+		defer c.config.mutex.Unlock()
 		if c.isClient {
 			// Clients look up PSKs based on server name
 			c.config.PSKs.Put(c.config.ServerName, action.PSK)
diff --git a/server-state-machine.go b/server-state-machine.go
index 522372a..fa65dd0 100644
--- a/server-state-machine.go
+++ b/server-state-machine.go
@@ -240,7 +240,9 @@ func (state serverStateStart) Next(hr handshakeMessageReader) (HandshakeState, [
 		}
 		context := append(contextBase, chTrunc...)
 
+		state.Config.mutex.RLock() // other connections may be adding PSKs
 		canDoPSK, selectedPSK, psk, params, err = PSKNegotiation(clientPSK.Identities, clientPSK.Binders, context, state.Config.PSKs)
+		state.Config.mutex.RUnlock()
 		if err != nil {
 			logf(logTypeHandshake, "[ServerStateStart] Error in PSK negotiation [%v]", err)
 			return nil, nil, AlertInternalError
-- 
2.43.0


From 7a6ac964178aab9d2428003a99fcf122eae9a980 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:44:19 +0000
Subject: [PATCH 20/48] fix: full-size fragments could not be written under
 encryption

---
 record-layer.go | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/record-layer.go b/record-layer.go
index b2b07e4..433e4d4 100644
--- a/record-layer.go
+++ b/record-layer.go
@@ -356,7 +356,7 @@ func (r *DefaultRecordLayer) nextRecord(allowOldEpoch bool) (*TLSPlaintext, erro
 
 	for err != nil {
 		if r.frame.needed() > 0 {
-			buf := make([]byte, r.frame.details.headerLen()+maxFragmentLen)
+			buf := make([]byte, r.frame.details.headerLen()+maxFragmentLen+256)
 			n, err := r.conn.Read(buf)
 			if err != nil {
 				logf(logTypeIO, "%s Error reading, %v", r.label, err)
@@ -498,7 +498,8 @@ func (r *DefaultRecordLayer) writeRecordWithPadding(pt *TLSPlaintext, cipher *ci
 		ciphertext = pt.fragment
 	}
 
-	if len(ciphertext) > maxFragmentLen {
+	// The limit applies to the plaintext. Padding must not grow a record beyond it.
+	if len(pt.fragment) > maxFragmentLen || (padLen > 0 && len(pt.fragment)+1+padLen > maxFragmentLen) {
 		return fmt.Errorf("tls.record: Record size too big")
 	}
 
-- 
2.43.0


From e3495c9f91600e0805abb737b1a95d238b208002 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:44:24 +0000
Subject: [PATCH 21/48] fix: DTLS records of an earlier epoch were decrypted
 with the current keys

---
 record-layer.go | 12 ++++++------
 1 file changed, 6 insertions(+), 6 deletions(-)

diff --git a/record-layer.go b/record-layer.go
index 433e4d4..d95fe55 100644
--- a/record-layer.go
+++ b/record-layer.go
@@ -262,22 +262,22 @@ func (r *DefaultRecordLayer) encrypt(cipher *cipherState, seq uint64, header []b
 	return ciphertext
 }
 
-func (r *DefaultRecordLayer) decrypt(seq uint64, header []byte, pt *TLSPlaintext) (*TLSPlaintext, int, error) {
+func (r *DefaultRecordLayer) decrypt(cipher *cipherState, seq uint64, header []byte, pt *TLSPlaintext) (*TLSPlaintext, int, error) {
 	assert(r.direction == DirectionRead)
 	logf(logTypeIO, "%s Decrypt seq=[%x]", r.label, seq)
-	if len(pt.fragment) < r.cipher.overhead() {
-		msg := fmt.Sprintf("tls.record.decrypt: Record too short [%d] < [%d]", len(pt.fragment), r.cipher.overhead())
+	if len(pt.fragment) < cipher.overhead() {
+		msg := fmt.Sprintf("tls.record.decrypt: Record too short [%d] < [%d]", len(pt.fragment), cipher.overhead())
 		return nil, 0, DecryptError(msg)
 	}
 
-	decryptLen := len(pt.fragment) - r.cipher.overhead()
+	decryptLen := len(pt.fragment) - cipher.overhead()
 	out := &TLSPlaintext{
 		contentType: pt.contentType,
 		fragment:    make([]byte, decryptLen),
 	}
 
 	// Decrypt
-	_, err := r.cipher.cipher.Open(out.fragment[:0], r.cipher.computeNonce(seq), pt.fragment, header)
+	_, err := cipher.cipher.Open(out.fragment[:0], cipher.computeNonce(seq), pt.fragment, header)
 	if err != nil {
 		logf(logTypeIO, "%s AEAD decryption failure [%x]", r.label, pt)
 		return nil, 0, DecryptError("tls.record.decrypt: AEAD decrypt failed")
@@ -433,7 +433,7 @@ func (r *DefaultRecordLayer) nextRecord(allowOldEpoch bool) (*TLSPlaintext, erro
 
 	if cipher.cipher != nil {
 		logf(logTypeIO, "%s RecordLayer.ReadRecord epoch=[%s] seq=[%x] [%d] ciphertext=[%x]", r.label, cipher.epoch.label(), seq, pt.contentType, pt.fragment)
-		pt, _, err = r.decrypt(seq, header, pt)
+		pt, _, err = r.decrypt(cipher, seq, header, pt)
 		if err != nil {
 			logf(logTypeIO, "%s Decryption failed", r.label)
 			return nil, err
-- 
2.43.0


From 010fc961c307d4ea09166e26c483446b04e599fd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:44:29 +0000
Subject: [PATCH 22/48] fix: data that the transport returned along with an
 error was dropped

---
 record-layer.go | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/record-layer.go b/record-layer.go
index d95fe55..9900c59 100644
--- a/record-layer.go
+++ b/record-layer.go
@@ -358,7 +358,8 @@ func (r *DefaultRecordLayer) nextRecord(allowOldEpoch bool) (*TLSPlaintext, erro
 		if r.frame.needed() > 0 {
 			buf := make([]byte, r.frame.details.headerLen()+maxFragmentLen+256)
 			n, err := r.conn.Read(buf)
-			if err != nil {
+			// A reader may return data along with an error. Use the data first.
+			if n == 0 && err != nil {
 				logf(logTypeIO, "%s Error reading, %v", r.label, err)
 				return nil, err
 			}
-- 
2.43.0


From 53c2e6226b3558382a35a31f068ae0cc32a0ae6c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:44:33 +0000
Subject: [PATCH 23/48] fix: DTLS ACKs named record 0 for every cleartext
 record

---
 record-layer.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/record-layer.go b/record-layer.go
index 9900c59..f95c924 100644
--- a/record-layer.go
+++ b/record-layer.go
@@ -297,7 +297,6 @@ func (r *DefaultRecordLayer) decrypt(cipher *cipherState, seq uint64, header []b
 
 	// Truncate the message to remove contentType, padding, overhead
 	out.fragment = out.fragment[:newLen]
-	out.seq = seq
 	return out, padLen, nil
 }
 
@@ -441,6 +440,7 @@ func (r *DefaultRecordLayer) nextRecord(allowOldEpoch bool) (*TLSPlaintext, erro
 		}
 	}
 	pt.epoch = cipher.epoch
+	pt.seq = seq
 
 	// Check that plaintext length is not too long
 	if len(pt.fragment) > maxFragmentLen {
-- 
2.43.0


From b238d64f26e14f778686f8a0c689e9312310d5fa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:44:52 +0000
Subject: [PATCH 24/48] fix: DTLS retransmissions were recorded under the wrong
 record number, so ACKs did not match

---
 handshake-layer.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/handshake-layer.go b/handshake-layer.go
index 5bdc1ef..7e04b1c 100644
--- a/handshake-layer.go
+++ b/handshake-layer.go
@@ -486,7 +486,7 @@ func (h *HandshakeLayer) writeFragment(hm *HandshakeMessage, start int, room int
 			hm.seq,
 			start,
 			len(body),
-			h.conn.(*DefaultRecordLayer).cipher.combineSeq(true),
+			hm.cipher.combineSeq(true),
 			false,
 		})
 		err = h.conn.(*DefaultRecordLayer).writeRecordWithPadding(
-- 
2.43.0


From bb6b788d0871153036a851d18dd6c2626bf2a4d3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:45:11 +0000
Subject: [PATCH 25/48] fix: an expired timer took all other timers with it

---
 timer.go | 23 ++++++++++-------------
 1 file changed, 10 insertions(+), 13 deletions(-)

diff --git a/timer.go b/timer.go
index 0b7f7af..7cf7e1a 100644
--- a/timer.go
+++ b/timer.go
@@ -56,20 +56,17 @@ func (ts *timerSet) start(label string, cb timerCb, delayMs uint32) *timer {
 // We should be able to do just one list manipulation, as long
 // as we're careful about how we handle inserts during callbacks.
 func (ts *timerSet) check(now time.Time) error {
-	for i, t := range ts.ts {
-		if now.After(t.deadline) {
-			ts.ts = append(ts.ts[:i], ts.ts[:i+1]...)
-			if t.cb != nil {
-				logf(logTypeHandshake, "Timer %s expired [%v > %v]", t.label, now, t.deadline)
-				cb := t.cb
-				t.cb = nil
-				err := cb()
-				if err != nil {
-					return err
-				}
+	for len(ts.ts) > 0 && now.After(ts.ts[0].deadline) {
+		t := ts.ts[0]
+		ts.ts = ts.ts[1:]
+		if t.cb != nil {
+			logf(logTypeHandshake, "Timer %s expired [%v > %v]", t.label, now, t.deadline)
+			cb := t.cb
+			t.cb = nil
+			err := cb()
+			if err != nil {
+				return err
 			}
-		} else {
-			break
 		}
 	}
 	return nil
-- 
2.43.0


From f347e1dfdb002c5005ea43cb03194ea8193c92b5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:45:45 +0000
Subject: [PATCH 26/48] fix: DTLS reassembly kept stale fragments, mixed up
 messages and panicked on oversized fragments

---
 handshake-layer.go | 15 ++++++++-------
 1 file changed, 8 insertions(+), 7 deletions(-)

diff --git a/handshake-layer.go b/handshake-layer.go
index 7e04b1c..9ec3ce8 100644
--- a/handshake-layer.go
+++ b/handshake-layer.go
@@ -258,12 +258,9 @@ func (h *HandshakeLayer) sendAlert(err Alert) error {
 
 func (h *HandshakeLayer) noteMessageDelivered(seq uint32) {
 	h.msgSeq = seq + 1
-	var i int
-	var m *HandshakeMessage
-	for i, m = range h.queued {
-		if m.seq > seq {
-			break
-		}
+	i := 0
+	for i < len(h.queued) && h.queued[i].seq <= seq {
+		i++
 	}
 	h.queued = h.queued[i:]
 }
@@ -273,6 +270,10 @@ func (h *HandshakeLayer) newFragmentReceived(hm *HandshakeMessage) (*HandshakeMe
 		return nil, nil
 	}
 
+	if hm.offset+uint32(len(hm.body)) > hm.length {
+		return nil, fmt.Errorf("DTLS fragment exceeds message length")
+	}
+
 	// TODO(ekr@rtfm.com): Send an ACK immediately if we got something
 	// out of order.
 	h.ctx.receivedHandshakeMessage()
@@ -291,7 +292,7 @@ func (h *HandshakeLayer) newFragmentReceived(hm *HandshakeMessage) (*HandshakeMe
 		if hm.seq < f.seq {
 			break
 		}
-		if hm.offset < f.offset {
+		if hm.seq == f.seq && hm.offset < f.offset {
 			break
 		}
 	}
-- 
2.43.0


From 7db9f504511640fe85d465c9f43621c34abbc61c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:45:49 +0000
Subject: [PATCH 27/48] fix: DTLS handshakes with a cookie could not complete

---
 conn.go                 | 1 +
 handshake-layer.go      | 6 ++++++
 record-layer.go         | 6 ++++++
 server-state-machine.go | 5 +++++
 4 files changed, 18 insertions(+)

diff --git a/conn.go b/conn.go
index 3bb1ec8..1c7644f 100644
--- a/conn.go
+++ b/conn.go
@@ -728,6 +728,7 @@ func (c *Conn) HandshakeSetup() Alert {
 		// Early data sent along with the first ClientHello may still be in flight,
 		// even to a new Conn if the retry is stateless.
 		c.hsCtx.hIn.skipEarlyData = c.config.RequireCookie
+		c.hsCtx.hIn.statelessRetry = c.config.RequireCookie
 		state = serverStateStart{Config: c.config, conn: c, hsCtx: c.hsCtx}
 	}
 
diff --git a/handshake-layer.go b/handshake-layer.go
index 9ec3ce8..2522de5 100644
--- a/handshake-layer.go
+++ b/handshake-layer.go
@@ -128,6 +128,7 @@ type HandshakeLayer struct {
 	sent           []*HandshakeMessage // Sent messages for DTLS
 	recvdRecords   []uint64            // Records we have received.
 	maxFragmentLen int
+	statelessRetry bool // The first message may be a second ClientHello (DTLS)
 	skipEarlyData  bool // Ignore 0-RTT records sent before a HelloRetryRequest was received
 }
 
@@ -266,6 +267,11 @@ func (h *HandshakeLayer) noteMessageDelivered(seq uint32) {
 }
 
 func (h *HandshakeLayer) newFragmentReceived(hm *HandshakeMessage) (*HandshakeMessage, error) {
+	if h.statelessRetry && h.msgSeq == 0 && hm.seq == 1 && hm.msgType == HandshakeTypeClientHello {
+		// This is the response to a HelloRetryRequest that another Conn sent.
+		h.msgSeq = 1
+	}
+
 	if hm.seq < h.msgSeq {
 		return nil, nil
 	}
diff --git a/record-layer.go b/record-layer.go
index f95c924..7ed1e6f 100644
--- a/record-layer.go
+++ b/record-layer.go
@@ -164,6 +164,12 @@ func (r *DefaultRecordLayer) SetVersion(v uint16) {
 }
 
 func (r *DefaultRecordLayer) ResetClear(seq uint64) {
+	// Record numbers must not be reused in DTLS, because the peer's ACKs
+	// refer to them, and there may have been retransmissions.
+	if r.datagram && r.cipher.epoch == EpochClear {
+		return
+	}
+
 	r.cipher = newCipherStateNull()
 	r.cipher.seq = seq
 }
diff --git a/server-state-machine.go b/server-state-machine.go
index fa65dd0..13dc537 100644
--- a/server-state-machine.go
+++ b/server-state-machine.go
@@ -337,6 +337,8 @@ func (state serverStateStart) Next(hr handshakeMessageReader) (HandshakeState, [
 				QueueHandshakeMessage{helloRetryRequest},
 				SendQueuedHandshake{},
 			}
+			state.hsCtx.receivedEndOfFlight()
+
 			logf(logTypeHandshake, "[ServerStateStart] -> [ServerStateStart]")
 			return state, toSend, AlertStatelessRetry
 		}
@@ -457,6 +459,9 @@ func (state *serverStateStart) generateHRR(cs CipherSuite, legacySessionId []byt
 			return nil, err
 		}
 	}
+	// The HRR is the first message we send. We get here a second time when the
+	// client returns the cookie.
+	state.hsCtx.hOut.msgSeq = 0
 	helloRetryRequest, err := state.hsCtx.hOut.HandshakeMessageFromBody(hrr)
 	if err != nil {
 		logf(logTypeHandshake, "[ServerStateStart] Error marshaling HRR [%v]", err)
-- 
2.43.0


From 7fd5cd14833ecfadf3e1cc22d5717bf3e672558d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:46:37 +0000
Subject: [PATCH 28/48] fix: exporter context was not hashed, and out-of-range
 lengths panicked or wrapped

---
 conn.go | 9 ++++++++-
 1 file changed, 8 insertions(+), 1 deletion(-)

diff --git a/conn.go b/conn.go
index 1c7644f..0851c5a 100644
--- a/conn.go
+++ b/conn.go
@@ -954,10 +954,17 @@ func (c *Conn) ComputeExporter(label string, context []byte, keyLength int) ([]b
 		return nil, fmt.Errorf("Internal error: no exporter secret")
 	}
 
+	// These are the limits of HKDF-Expand-Label
+	if keyLength < 0 || keyLength > 255*c.state.cryptoParams.Hash.Size() || len("tls13 ")+len(label) > 255 {
+		return nil, fmt.Errorf("Cannot compute exporter with this label or key length")
+	}
+
 	h0 := c.state.cryptoParams.Hash.New().Sum(nil)
 	tmpSecret := deriveSecret(c.state.cryptoParams, c.state.exporterSecret, label, h0)
 
-	hc := c.state.cryptoParams.Hash.New().Sum(context)
+	h := c.state.cryptoParams.Hash.New()
+	h.Write(context)
+	hc := h.Sum(nil)
 	return HkdfExpandLabel(c.state.cryptoParams.Hash, tmpSecret, "exporter", hc, keyLength), nil
 }
 
-- 
2.43.0


From beef8aaa735a5330a7445191585af521acbf1fa0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:46:43 +0000
Subject: [PATCH 29/48] fix: key updates did not use the traffic upd label

---
 crypto.go        | 1 +
 state-machine.go | 8 ++++----
 2 files changed, 5 insertions(+), 4 deletions(-)

diff --git a/crypto.go b/crypto.go
index ba351d0..d2a5a23 100644
--- a/crypto.go
+++ b/crypto.go
@@ -543,6 +543,7 @@ const (
 	labelServerHandshakeTrafficSecret   = "s hs traffic"
 	labelClientApplicationTrafficSecret = "c ap traffic"
 	labelServerApplicationTrafficSecret = "s ap traffic"
+	labelTrafficUpdate                  = "traffic upd"
 	labelExporterSecret                 = "exp master"
 	labelResumptionSecret               = "res master"
 	labelDerived                        = "derived"
diff --git a/state-machine.go b/state-machine.go
index f0635c8..2d7ba7f 100644
--- a/state-machine.go
+++ b/state-machine.go
@@ -114,11 +114,11 @@ func (state *stateConnected) KeyUpdate(request KeyUpdateRequest) ([]HandshakeAct
 	var trafficKeys KeySet
 	if state.isClient {
 		state.clientTrafficSecret = HkdfExpandLabel(state.cryptoParams.Hash, state.clientTrafficSecret,
-			labelClientApplicationTrafficSecret, []byte{}, state.cryptoParams.Hash.Size())
+			labelTrafficUpdate, []byte{}, state.cryptoParams.Hash.Size())
 		trafficKeys = makeTrafficKeys(state.cryptoParams, state.clientTrafficSecret)
 	} else {
 		state.serverTrafficSecret = HkdfExpandLabel(state.cryptoParams.Hash, state.serverTrafficSecret,
-			labelServerApplicationTrafficSecret, []byte{}, state.cryptoParams.Hash.Size())
+			labelTrafficUpdate, []byte{}, state.cryptoParams.Hash.Size())
 		trafficKeys = makeTrafficKeys(state.cryptoParams, state.serverTrafficSecret)
 	}
 
@@ -199,11 +199,11 @@ func (state stateConnected) ProcessMessage(hm *HandshakeMessage) (HandshakeState
 		var trafficKeys KeySet
 		if !state.isClient {
 			state.clientTrafficSecret = HkdfExpandLabel(state.cryptoParams.Hash, state.clientTrafficSecret,
-				labelClientApplicationTrafficSecret, []byte{}, state.cryptoParams.Hash.Size())
+				labelTrafficUpdate, []byte{}, state.cryptoParams.Hash.Size())
 			trafficKeys = makeTrafficKeys(state.cryptoParams, state.clientTrafficSecret)
 		} else {
 			state.serverTrafficSecret = HkdfExpandLabel(state.cryptoParams.Hash, state.serverTrafficSecret,
-				labelServerApplicationTrafficSecret, []byte{}, state.cryptoParams.Hash.Size())
+				labelTrafficUpdate, []byte{}, state.cryptoParams.Hash.Size())
 			trafficKeys = makeTrafficKeys(state.cryptoParams, state.serverTrafficSecret)
 		}
 
-- 
2.43.0


From 7630d29084de286787212fd55c3c74ccf051b079 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:47:02 +0000
Subject: [PATCH 30/48] fix: client CertificateVerify was signed with the
 server's context

---
 client-state-machine.go |  2 +-
 handshake-messages.go   | 25 ++++++++++++++++++++-----
 server-state-machine.go |  2 +-
 3 files changed, 22 insertions(+), 7 deletions(-)

diff --git a/client-state-machine.go b/client-state-machine.go
index 22204a4..9995922 100644
--- a/client-state-machine.go
+++ b/client-state-machine.go
@@ -1078,7 +1078,7 @@ func (state clientStateWaitFinished) Next(hr handshakeMessageReader) (HandshakeS
 			certificateVerify := &CertificateVerifyBody{Algorithm: certScheme}
 			logf(logTypeHandshake, "Creating CertVerify: %04x %v", certScheme, state.cryptoParams.Hash)
 
-			err = certificateVerify.Sign(cert.PrivateKey, hcv)
+			err = certificateVerify.sign(contextClientCertificateVerify, cert.PrivateKey, hcv)
 			if err != nil {
 				logf(logTypeHandshake, "[ClientStateWaitFinished] Error signing CertificateVerify [%v]", err)
 				return nil, nil, AlertInternalError
diff --git a/handshake-messages.go b/handshake-messages.go
index e8e3aef..16e292c 100644
--- a/handshake-messages.go
+++ b/handshake-messages.go
@@ -351,10 +351,17 @@ func (cv *CertificateVerifyBody) Unmarshal(data []byte) (int, error) {
 	return syntax.Unmarshal(data, cv)
 }
 
+const (
+	contextServerCertificateVerify = "TLS 1.3, server CertificateVerify"
+	contextClientCertificateVerify = "TLS 1.3, client CertificateVerify"
+)
+
+// The methods without a context argument are for the server's CertificateVerify.
 func (cv *CertificateVerifyBody) EncodeSignatureInput(data []byte) []byte {
-	// TODO: Change context for client auth
-	// TODO: Put this in a const
-	const context = "TLS 1.3, server CertificateVerify"
+	return cv.encodeSignatureInput(contextServerCertificateVerify, data)
+}
+
+func (cv *CertificateVerifyBody) encodeSignatureInput(context string, data []byte) []byte {
 	sigInput := bytes.Repeat([]byte{0x20}, 64)
 	sigInput = append(sigInput, []byte(context)...)
 	sigInput = append(sigInput, []byte{0}...)
@@ -363,14 +370,22 @@ func (cv *CertificateVerifyBody) EncodeSignatureInput(data []byte) []byte {
 }
 
 func (cv *CertificateVerifyBody) Sign(privateKey crypto.Signer, handshakeHash []byte) (err error) {
-	sigInput := cv.EncodeSignatureInput(handshakeHash)
+	return cv.sign(contextServerCertificateVerify, privateKey, handshakeHash)
+}
+
+func (cv *CertificateVerifyBody) sign(context string, privateKey crypto.Signer, handshakeHash []byte) (err error) {
+	sigInput := cv.encodeSignatureInput(context, handshakeHash)
 	cv.Signature, err = sign(cv.Algorithm, privateKey, sigInput)
 	logf(logTypeHandshake, "Signed: alg=[%04x] sigInput=[%x], sig=[%x]", cv.Algorithm, sigInput, cv.Signature)
 	return
 }
 
 func (cv *CertificateVerifyBody) Verify(publicKey crypto.PublicKey, handshakeHash []byte) error {
-	sigInput := cv.EncodeSignatureInput(handshakeHash)
+	return cv.verify(contextServerCertificateVerify, publicKey, handshakeHash)
+}
+
+func (cv *CertificateVerifyBody) verify(context string, publicKey crypto.PublicKey, handshakeHash []byte) error {
+	sigInput := cv.encodeSignatureInput(context, handshakeHash)
 	logf(logTypeHandshake, "About to verify: alg=[%04x] sigInput=[%x], sig=[%x]", cv.Algorithm, sigInput, cv.Signature)
 	return verify(cv.Algorithm, publicKey, sigInput, cv.Signature)
 }
diff --git a/server-state-machine.go b/server-state-machine.go
index 13dc537..87e4fa4 100644
--- a/server-state-machine.go
+++ b/server-state-machine.go
@@ -1088,7 +1088,7 @@ func (state serverStateWaitCV) Next(hr handshakeMessageReader) (HandshakeState,
 	logf(logTypeHandshake, "Handshake Hash to be verified: [%d] %x", len(hcv), hcv)
 
 	clientPublicKey := state.clientCertificate.CertificateList[0].CertData.PublicKey
-	if err := certVerify.Verify(clientPublicKey, hcv); err != nil {
+	if err := certVerify.verify(contextClientCertificateVerify, clientPublicKey, hcv); err != nil {
 		logf(logTypeHandshake, "[ServerStateWaitCV] Failure in client auth verification [%v]", err)
 		return nil, nil, AlertHandshakeFailure
 	}
-- 
2.43.0


From ffb0a187e73de9e2fa75c1e1db57f89245010ac6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:49:34 +0000
Subject: [PATCH 31/48] fix: client accepted ALPN and early data that it did
 not offer

---
 client-state-machine.go | 22 +++++++++++++++++++++-
 1 file changed, 21 insertions(+), 1 deletion(-)

diff --git a/client-state-machine.go b/client-state-machine.go
index 9995922..923dbdc 100644
--- a/client-state-machine.go
+++ b/client-state-machine.go
@@ -654,9 +654,29 @@ func (state clientStateWaitEE) Next(hr handshakeMessageReader) (HandshakeState,
 		return nil, nil, AlertDecodeError
 	}
 
+	// The server can only accept early data and application protocols that
+	// were offered
+	if foundExts[ExtensionTypeEarlyData] && !state.Params.ClientSendingEarlyData {
+		logf(logTypeHandshake, "[ClientStateWaitEE] Server accepted early data that was not offered")
+		return nil, nil, AlertUnsupportedExtension
+	}
 	state.Params.UsingEarlyData = foundExts[ExtensionTypeEarlyData]
 
-	if foundExts[ExtensionTypeALPN] && len(serverALPN.Protocols) > 0 {
+	if foundExts[ExtensionTypeALPN] {
+		if len(state.Config.NextProtos) == 0 {
+			logf(logTypeHandshake, "[ClientStateWaitEE] Server sent ALPN, but it was not offered")
+			return nil, nil, AlertUnsupportedExtension
+		}
+		offered := false
+		if len(serverALPN.Protocols) == 1 {
+			for _, proto := range state.Config.NextProtos {
+				offered = offered || proto == serverALPN.Protocols[0]
+			}
+		}
+		if !offered {
+			logf(logTypeHandshake, "[ClientStateWaitEE] Server chose a protocol that was not offered %v", serverALPN.Protocols)
+			return nil, nil, AlertIllegalParameter
+		}
 		state.Params.NextProto = serverALPN.Protocols[0]
 	}
 
-- 
2.43.0


From 52540cf062fcf0a48885a17be05dac24114ef1e1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:49:38 +0000
Subject: [PATCH 32/48] fix: certificate selection picked signature schemes the
 key cannot use

---
 crypto.go | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/crypto.go b/crypto.go
index d2a5a23..1a4a834 100644
--- a/crypto.go
+++ b/crypto.go
@@ -183,11 +183,16 @@ func primeFromNamedGroup(group NamedGroup) (p *big.Int) {
 
 func schemeValidForKey(alg SignatureScheme, key crypto.Signer) bool {
 	sigType := sigMap[alg]
+	if hashMap[alg] == crypto.SHA1 {
+		// sign() never uses SHA-1
+		return false
+	}
 	switch key.(type) {
 	case *rsa.PrivateKey:
 		return sigType == signatureAlgorithmRSA_PKCS1 || sigType == signatureAlgorithmRSA_PSS
 	case *ecdsa.PrivateKey:
-		return sigType == signatureAlgorithmECDSA
+		return sigType == signatureAlgorithmECDSA &&
+			curveMap[alg] == namedGroupFromECDSAKey(key.Public().(*ecdsa.PublicKey))
 	default:
 		return false
 	}
-- 
2.43.0


From 8abbd4b311388ed430445e50c32efafa9b829de6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:49:43 +0000
Subject: [PATCH 33/48] fix: CertificateVerify was accepted with a signature
 scheme that was not offered

---
 client-state-machine.go | 5 +++++
 crypto.go               | 9 +++++++++
 server-state-machine.go | 5 +++++
 3 files changed, 19 insertions(+)

diff --git a/client-state-machine.go b/client-state-machine.go
index 923dbdc..337655b 100644
--- a/client-state-machine.go
+++ b/client-state-machine.go
@@ -888,6 +888,11 @@ func (state clientStateWaitCV) Next(hr handshakeMessageReader) (HandshakeState,
 		return nil, nil, AlertDecodeError
 	}
 
+	if !signatureSchemeIn(certVerify.Algorithm, state.Config.SignatureSchemes) {
+		logf(logTypeHandshake, "[ClientStateWaitCV] Signature scheme %04x was not offered", certVerify.Algorithm)
+		return nil, nil, AlertIllegalParameter
+	}
+
 	hcv := state.handshakeHash.Sum(nil)
 	logf(logTypeHandshake, "Handshake Hash to be verified: [%d] %x", len(hcv), hcv)
 
diff --git a/crypto.go b/crypto.go
index 1a4a834..e8804aa 100644
--- a/crypto.go
+++ b/crypto.go
@@ -181,6 +181,15 @@ func primeFromNamedGroup(group NamedGroup) (p *big.Int) {
 	return
 }
 
+func signatureSchemeIn(scheme SignatureScheme, schemes []SignatureScheme) bool {
+	for _, s := range schemes {
+		if s == scheme {
+			return true
+		}
+	}
+	return false
+}
+
 func schemeValidForKey(alg SignatureScheme, key crypto.Signer) bool {
 	sigType := sigMap[alg]
 	if hashMap[alg] == crypto.SHA1 {
diff --git a/server-state-machine.go b/server-state-machine.go
index 87e4fa4..670be01 100644
--- a/server-state-machine.go
+++ b/server-state-machine.go
@@ -1076,6 +1076,11 @@ func (state serverStateWaitCV) Next(hr handshakeMessageReader) (HandshakeState,
 		return nil, nil, AlertDecodeError
 	}
 
+	if !signatureSchemeIn(certVerify.Algorithm, state.Config.SignatureSchemes) {
+		logf(logTypeHandshake, "[ServerStateWaitCV] Signature scheme %04x was not offered", certVerify.Algorithm)
+		return nil, nil, AlertIllegalParameter
+	}
+
 	rawCerts := make([][]byte, len(state.clientCertificate.CertificateList))
 	certs := make([]*x509.Certificate, len(state.clientCertificate.CertificateList))
 	for i, certEntry := range state.clientCertificate.CertificateList {
-- 
2.43.0


From dbd84a0515b08253f64c24b7ed51930332c1d72d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:49:48 +0000
Subject: [PATCH 34/48] fix: decoder panicked on a missing optional flag,
 looped on empty elements

---
 syntax/decode.go | 9 ++++++++-
 1 file changed, 8 insertions(+), 1 deletion(-)

diff --git a/syntax/decode.go b/syntax/decode.go
index 7cedc3c..60714b1 100644
--- a/syntax/decode.go
+++ b/syntax/decode.go
@@ -290,7 +290,11 @@ func (sd *sliceDecoder) decode(d *decodeState, v reflect.Value, opts fieldOption
 	elems := []reflect.Value{}
 	for elemBuf.Len() > 0 {
 		elem := reflect.New(sd.elementType)
-		read += sd.elementDec(elemBuf, elem, opts)
+		elemRead := sd.elementDec(elemBuf, elem, opts)
+		if elemRead == 0 {
+			panic(fmt.Errorf("Vector element consumed no data"))
+		}
+		read += elemRead
 		elems = append(elems, elem)
 	}
 
@@ -412,6 +416,9 @@ func (pd *pointerDecoder) decode(d *decodeState, v reflect.Value, opts fieldOpti
 	if opts.optional {
 		readBase = 1
 		flag := d.Next(1)
+		if len(flag) != 1 {
+			panic(fmt.Errorf("Insufficient data to read optional flag"))
+		}
 		switch flag[0] {
 		case optionalFlagAbsent:
 			indir := v.Elem()
-- 
2.43.0


From 468aa1c27761678d789f3d7c2f25b29450644fd3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:55:05 +0000
Subject: [PATCH 35/48] fix: client accepted early data without the PSK

---
 client-state-machine.go | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/client-state-machine.go b/client-state-machine.go
index 337655b..306014c 100644
--- a/client-state-machine.go
+++ b/client-state-machine.go
@@ -655,8 +655,8 @@ func (state clientStateWaitEE) Next(hr handshakeMessageReader) (HandshakeState,
 	}
 
 	// The server can only accept early data and application protocols that
-	// were offered
-	if foundExts[ExtensionTypeEarlyData] && !state.Params.ClientSendingEarlyData {
+	// were offered, and early data only along with the PSK
+	if foundExts[ExtensionTypeEarlyData] && !(state.Params.ClientSendingEarlyData && state.Params.UsingPSK) {
 		logf(logTypeHandshake, "[ClientStateWaitEE] Server accepted early data that was not offered")
 		return nil, nil, AlertUnsupportedExtension
 	}
-- 
2.43.0


From 52c3917b45ed5f6955e2383a658f58c06fa9b33e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:56:11 +0000
Subject: [PATCH 36/48] fix: protocol errors after the handshake read as a
 clean end of stream, data after a close was delivered

---
 conn.go | 36 ++++++++++++++++++++++++++++--------
 1 file changed, 28 insertions(+), 8 deletions(-)

diff --git a/conn.go b/conn.go
index 0851c5a..013a9d1 100644
--- a/conn.go
+++ b/conn.go
@@ -295,6 +295,7 @@ type Conn struct {
 	handshakeComplete bool
 
 	readBuffer []byte
+	readError  error // set once the peer closed the connection or broke the protocol
 	in, out    RecordLayer
 	hsCtx      *HandshakeContext
 }
@@ -357,6 +358,10 @@ func (c *Conn) processPostHandshakeMessage(hm *HandshakeMessage) Alert {
 
 // Read up
 func (c *Conn) consumeRecord() error {
+	if c.readError != nil {
+		return c.readError
+	}
+
 	pt, err := c.in.ReadRecord()
 	if pt == nil {
 		logf(logTypeIO, "extendBuffer returns error %v", err)
@@ -375,7 +380,8 @@ func (c *Conn) consumeRecord() error {
 		}
 		for start < len(pt.fragment) {
 			if len(pt.fragment[start:]) < headerLen {
-				return fmt.Errorf("Post-handshake handshake message too short for header")
+				c.readError = fmt.Errorf("Post-handshake handshake message too short for header")
+				return c.readError
 			}
 
 			hm := &HandshakeMessage{}
@@ -383,7 +389,8 @@ func (c *Conn) consumeRecord() error {
 			hmLen := (int(pt.fragment[start+1]) << 16) + (int(pt.fragment[start+2]) << 8) + int(pt.fragment[start+3])
 
 			if len(pt.fragment[start+headerLen:]) < hmLen {
-				return fmt.Errorf("Post-handshake handshake message too short for body")
+				c.readError = fmt.Errorf("Post-handshake handshake message too short for body")
+				return c.readError
 			}
 			hm.body = pt.fragment[start+headerLen : start+headerLen+hmLen]
 
@@ -392,7 +399,8 @@ func (c *Conn) consumeRecord() error {
 			// Connected -> Connected
 			if alert := c.processPostHandshakeMessage(hm); alert != AlertNoAlert {
 				c.sendAlert(alert)
-				return io.EOF
+				c.readError = alert
+				return c.readError
 			}
 
 			start += headerLen + hmLen
@@ -401,26 +409,31 @@ func (c *Conn) consumeRecord() error {
 		logf(logTypeIO, "extended buffer (for alert): [%d] %x", len(c.readBuffer), c.readBuffer)
 		if len(pt.fragment) != 2 {
 			c.sendAlert(AlertUnexpectedMessage)
-			return io.EOF
+			c.readError = AlertUnexpectedMessage
+			return c.readError
 		}
 		if Alert(pt.fragment[1]) == AlertCloseNotify {
-			return io.EOF
+			c.readError = io.EOF
+			return c.readError
 		}
 
 		switch pt.fragment[0] {
 		case AlertLevelWarning:
 			// drop on the floor
 		case AlertLevelError:
-			return receivedAlert(pt.fragment[1])
+			c.readError = receivedAlert(pt.fragment[1])
+			return c.readError
 		default:
 			c.sendAlert(AlertUnexpectedMessage)
-			return io.EOF
+			c.readError = AlertUnexpectedMessage
+			return c.readError
 		}
 
 	case RecordTypeAck:
 		if !c.hsCtx.hIn.datagram {
 			logf(logTypeHandshake, "Received ACK in TLS mode")
-			return AlertUnexpectedMessage
+			c.readError = AlertUnexpectedMessage
+			return c.readError
 		}
 		c.out.Lock()
 		defer c.out.Unlock()
@@ -430,6 +443,13 @@ func (c *Conn) consumeRecord() error {
 		c.readBuffer = append(c.readBuffer, pt.fragment...)
 		logf(logTypeIO, "extended buffer: [%d] %x", len(c.readBuffer), c.readBuffer)
 
+	default:
+		if !c.hsCtx.hIn.datagram {
+			logf(logTypeIO, "Unexpected content type %v", pt.contentType)
+			c.sendAlert(AlertUnexpectedMessage)
+			c.readError = AlertUnexpectedMessage
+			return c.readError
+		}
 	}
 
 	return err
-- 
2.43.0


From 34d5d9093ae370b0467e97e3ab13a43467359b21 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:56:43 +0000
Subject: [PATCH 37/48] fix: key updates with an invalid request value were
 accepted

---
 state-machine.go | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/state-machine.go b/state-machine.go
index 2d7ba7f..27589ec 100644
--- a/state-machine.go
+++ b/state-machine.go
@@ -196,6 +196,11 @@ func (state stateConnected) ProcessMessage(hm *HandshakeMessage) (HandshakeState
 
 	switch body := bodyGeneric.(type) {
 	case *KeyUpdateBody:
+		if body.KeyUpdateRequest != KeyUpdateNotRequested && body.KeyUpdateRequest != KeyUpdateRequested {
+			logf(logTypeHandshake, "Invalid key update request %v", body.KeyUpdateRequest)
+			return nil, nil, AlertIllegalParameter
+		}
+
 		var trafficKeys KeySet
 		if !state.isClient {
 			state.clientTrafficSecret = HkdfExpandLabel(state.cryptoParams.Hash, state.clientTrafficSecret,
-- 
2.43.0


From 192cd2db8fb8e372b13b14e364b39c67277b69db Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:31:08 +0000
Subject: [PATCH 38/48] fix: DTLS endpoints panicked sending a record before
 the version was negotiated

---
 record-layer.go | 1 +
 1 file changed, 1 insertion(+)

diff --git a/record-layer.go b/record-layer.go
index 7ed1e6f..04fe703 100644
--- a/record-layer.go
+++ b/record-layer.go
@@ -156,6 +156,7 @@ func NewRecordLayerDTLS(conn io.ReadWriter, dir Direction) *DefaultRecordLayer {
 	r.readCiphers = make(map[Epoch]*cipherState, 0)
 	r.readCiphers[0] = r.cipher
 	r.datagram = true
+	r.version = tls10Version
 	return &r
 }
 
-- 
2.43.0


From 9cc14fcc59d694b1326dc20810a543b1188a807f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:12:03 +0000
Subject: [PATCH 39/48] fix: full-size early data in flight broke a handshake
 with HelloRetryRequest

---
 record-layer.go | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/record-layer.go b/record-layer.go
index 04fe703..9346119 100644
--- a/record-layer.go
+++ b/record-layer.go
@@ -449,8 +449,10 @@ func (r *DefaultRecordLayer) nextRecord(allowOldEpoch bool) (*TLSPlaintext, erro
 	pt.epoch = cipher.epoch
 	pt.seq = seq
 
-	// Check that plaintext length is not too long
-	if len(pt.fragment) > maxFragmentLen {
+	// Check that plaintext length is not too long. Without keys, application data is
+	// ciphertext that this end cannot open, e.g. early data sent before a retry.
+	unopened := cipher.cipher == nil && pt.contentType == RecordTypeApplicationData
+	if len(pt.fragment) > maxFragmentLen && !unopened {
 		return nil, fmt.Errorf("tls.record: Plaintext size too big")
 	}
 
-- 
2.43.0


From 5907eb1e522a4225e426d8fb6d48e4b26ace5d39 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:48:12 +0000
Subject: [PATCH 40/48] fix: tickets of sessions without a common application
 protocol could not be used

---
 negotiation.go | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/negotiation.go b/negotiation.go
index a0dda7a..645a668 100644
--- a/negotiation.go
+++ b/negotiation.go
@@ -207,8 +207,9 @@ func ALPNNegotiation(psk *PreSharedKey, offered, supported []string) (string, er
 	}
 
 	// If the client offers ALPN on resumption, it must match the earlier one
+	// (unless there was none)
 	var err error
-	if psk != nil && psk.IsResumption && (len(offered) > 0) {
+	if psk != nil && psk.IsResumption && psk.NextProto != "" && (len(offered) > 0) {
 		err = fmt.Errorf("ALPN for PSK not provided")
 	}
 	return "", err
-- 
2.43.0


From 5fc9d9ee418185613d370aaeac272bd220c112ef Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:55:09 +0000
Subject: [PATCH 41/48] fix: the PSK binder of a ClientHello with a session ID
 did not verify

---
 handshake-messages.go | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/handshake-messages.go b/handshake-messages.go
index 16e292c..c48c44d 100644
--- a/handshake-messages.go
+++ b/handshake-messages.go
@@ -60,7 +60,7 @@ func (ch ClientHelloBody) Marshal() ([]byte, error) {
 		return syntax.Marshal(clientHelloBodyInnerTLS{
 			LegacyVersion:            ch.LegacyVersion,
 			Random:                   ch.Random,
-			LegacySessionID:          []byte{},
+			LegacySessionID:          ch.LegacySessionID,
 			CipherSuites:             ch.CipherSuites,
 			LegacyCompressionMethods: []byte{0},
 			Extensions:               ch.Extensions,
@@ -69,7 +69,7 @@ func (ch ClientHelloBody) Marshal() ([]byte, error) {
 		return syntax.Marshal(clientHelloBodyInnerDTLS{
 			LegacyVersion:            ch.LegacyVersion,
 			Random:                   ch.Random,
-			LegacySessionID:          []byte{},
+			LegacySessionID:          ch.LegacySessionID,
 			CipherSuites:             ch.CipherSuites,
 			LegacyCompressionMethods: []byte{0},
 			Extensions:               ch.Extensions,
-- 
2.43.0


From b80b2b4964e73fceecfa5efb8dc2693cf4c0ff1d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:03:39 +0000
Subject: [PATCH 42/48] fix: syntax: varint values needing the top two bits of
 their type could be encoded but not decoded

---
 syntax/decode.go | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/syntax/decode.go b/syntax/decode.go
index 60714b1..7b5811f 100644
--- a/syntax/decode.go
+++ b/syntax/decode.go
@@ -165,9 +165,9 @@ func uintDecoder(d *decodeState, v reflect.Value, opts fieldOptions) int {
 func varintDecoder(d *decodeState, v reflect.Value, opts fieldOptions) int {
 	l, val := readVarint(d)
 
-	uintLen := int(v.Elem().Type().Size())
-	if uintLen < l {
-		panic(fmt.Errorf("Uint too small to fit varint: %d < %d", uintLen, l))
+	// The encoding has two bits of length, so it may be longer than the uint
+	if v.Elem().OverflowUint(val) {
+		panic(fmt.Errorf("Uint too small to fit varint: %d", val))
 	}
 
 	v.Elem().SetUint(val)
-- 
2.43.0


From a86b15869a085199cc4a5fd4c537d70a088f77dd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:03:44 +0000
Subject: [PATCH 43/48] fix: syntax: decoding a map whose entries are empty
 never returned

---
 syntax/decode.go | 9 +++++++--
 1 file changed, 7 insertions(+), 2 deletions(-)

diff --git a/syntax/decode.go b/syntax/decode.go
index 7b5811f..5d59968 100644
--- a/syntax/decode.go
+++ b/syntax/decode.go
@@ -340,10 +340,15 @@ func (md mapDecoder) decode(d *decodeState, v reflect.Value, opts fieldOptions)
 	elemBuf.Write(elemData)
 	for elemBuf.Len() > 0 {
 		key := reflect.New(md.keyType)
-		read += md.keyDec(elemBuf, key, nullOpts)
+		entryRead := md.keyDec(elemBuf, key, nullOpts)
 
 		val := reflect.New(md.valType)
-		read += md.valDec(elemBuf, val, nullOpts)
+		entryRead += md.valDec(elemBuf, val, nullOpts)
+
+		if entryRead == 0 {
+			panic(fmt.Errorf("Map entry consumed no data"))
+		}
+		read += entryRead
 
 		v.Elem().SetMapIndex(key.Elem(), val.Elem())
 	}
-- 
2.43.0


From d0b2abb535ae7160ff3a72e604e9f1948427b0e5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:16:55 +0000
Subject: [PATCH 44/48] fix: DTLS handshake messages received ahead of a key
 change were used after it (C04)

---
 conn.go | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/conn.go b/conn.go
index 013a9d1..d2c2361 100644
--- a/conn.go
+++ b/conn.go
@@ -669,6 +669,9 @@ func (c *Conn) takeAction(actionGeneric HandshakeAction) Alert {
 			logf(logTypeHandshake, "%s Rekey with data still in handshake buffers", label)
 			return AlertDecodeError
 		}
+		// With DTLS, messages that arrived ahead of their turn were not
+		// protected with the keys that they need.
+		c.hsCtx.hIn.queued = nil
 		err := c.in.Rekey(action.epoch, action.KeySet.Cipher, &action.KeySet)
 		if err != nil {
 			logf(logTypeHandshake, "%s Unable to rekey inbound: %v", label, err)
-- 
2.43.0


From bf84b23e59fd9f519168348319b6e9a152d207a0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:03:37 +0000
Subject: [PATCH 45/48] fix: reads reported WouldBlock with further records
 available after a dropped record (DTLS)

---
 record-layer.go | 18 ++++++++++++++++--
 1 file changed, 16 insertions(+), 2 deletions(-)

diff --git a/record-layer.go b/record-layer.go
index 9346119..5c64650 100644
--- a/record-layer.go
+++ b/record-layer.go
@@ -2,6 +2,7 @@ package mint
 
 import (
 	"crypto/cipher"
+	"errors"
 	"fmt"
 	"io"
 	"sync"
@@ -22,6 +23,9 @@ func (err DecryptError) Error() string {
 	return string(err)
 }
 
+// errRecordDropped is internal to the record layer: the record was consumed and ignored.
+var errRecordDropped = errors.New("tls.record: Record dropped")
+
 type Direction uint8
 
 const (
@@ -343,7 +347,17 @@ func (r *DefaultRecordLayer) ReadRecordAnyEpoch() (*TLSPlaintext, error) {
 	return pt, err
 }
 
+// nextRecord returns the next record that isn't dropped.
 func (r *DefaultRecordLayer) nextRecord(allowOldEpoch bool) (*TLSPlaintext, error) {
+	for {
+		pt, err := r.nextRecordOrDrop(allowOldEpoch)
+		if err != errRecordDropped {
+			return pt, err
+		}
+	}
+}
+
+func (r *DefaultRecordLayer) nextRecordOrDrop(allowOldEpoch bool) (*TLSPlaintext, error) {
 	cipher := r.cipher
 	if r.cachedRecord != nil {
 		logf(logTypeIO, "%s Returning cached record", r.label)
@@ -425,14 +439,14 @@ func (r *DefaultRecordLayer) nextRecord(allowOldEpoch bool) (*TLSPlaintext, erro
 		c, ok := r.readCiphers[epoch]
 		if !ok {
 			logf(logTypeIO, "%s Message from unknown epoch: [%v]", r.label, epoch)
-			return nil, AlertWouldBlock
+			return nil, errRecordDropped
 		}
 
 		if epoch != cipher.epoch {
 			logf(logTypeIO, "%s Message from non-current epoch: [%v != %v] out-of-epoch reads=%v", r.label, epoch,
 				cipher.epoch, allowOldEpoch)
 			if !allowOldEpoch {
-				return nil, AlertWouldBlock
+				return nil, errRecordDropped
 			}
 			cipher = c
 		}
-- 
2.43.0


From edcee4cbdcacb6cb2df10aebd170fcd130c0cf55 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:03:54 +0000
Subject: [PATCH 46/48] fix: every DTLS post-handshake message was sent again
 with each later one

---
 conn.go            |  2 +-
 handshake-layer.go | 18 +++++++++++++++---
 2 files changed, 16 insertions(+), 4 deletions(-)

diff --git a/conn.go b/conn.go
index d2c2361..2ec1a81 100644
--- a/conn.go
+++ b/conn.go
@@ -652,7 +652,7 @@ func (c *Conn) takeAction(actionGeneric HandshakeAction) Alert {
 		}
 
 	case SendQueuedHandshake:
-		_, err := c.hsCtx.hOut.SendQueuedMessages()
+		_, err := c.hsCtx.hOut.SendNewMessages()
 		if err != nil {
 			logf(logTypeHandshake, "%s Error writing handshake message: %v", label, err)
 			return AlertInternalError
diff --git a/handshake-layer.go b/handshake-layer.go
index 2522de5..c684453 100644
--- a/handshake-layer.go
+++ b/handshake-layer.go
@@ -126,6 +126,7 @@ type HandshakeLayer struct {
 	msgSeq         uint32              // The DTLS message sequence number
 	queued         []*HandshakeMessage // In/out queue
 	sent           []*HandshakeMessage // Sent messages for DTLS
+	flushed        int                 // How many of the queued messages have been sent
 	recvdRecords   []uint64            // Records we have received.
 	maxFragmentLen int
 	statelessRetry bool // The first message may be a second ClientHello (DTLS)
@@ -429,18 +430,29 @@ func (h *HandshakeLayer) QueueMessage(hm *HandshakeMessage) error {
 	return err
 }
 
-func (h *HandshakeLayer) SendQueuedMessages() (int, error) {
-	logf(logTypeHandshake, "Sending outgoing messages")
-	count, err := h.WriteMessages(h.queued)
+// SendNewMessages sends the queued messages that weren't sent before. The others
+// are only sent again when they are retransmitted.
+func (h *HandshakeLayer) SendNewMessages() (int, error) {
+	logf(logTypeHandshake, "Sending new outgoing messages")
+	unsent := h.queued[h.flushed:]
+	h.flushed = len(h.queued)
+	count, err := h.WriteMessages(unsent)
 	if !h.datagram {
 		h.ClearQueuedMessages()
 	}
 	return count, err
 }
 
+func (h *HandshakeLayer) SendQueuedMessages() (int, error) {
+	logf(logTypeHandshake, "Sending outgoing messages")
+	h.flushed = 0
+	return h.SendNewMessages()
+}
+
 func (h *HandshakeLayer) ClearQueuedMessages() {
 	logf(logTypeHandshake, "Clearing outgoing hs message queue")
 	h.queued = nil
+	h.flushed = 0
 }
 
 func (h *HandshakeLayer) writeFragment(hm *HandshakeMessage, start int, room int) (bool, int, error) {
-- 
2.43.0


From a76ba4b1fd9d401cf42b03e306019ad573619e85 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:28:11 +0000
Subject: [PATCH 47/48] fix: messages behind a KeyUpdate were accepted under
 the keys that it replaces

---
 conn.go | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/conn.go b/conn.go
index 2ec1a81..1ef549b 100644
--- a/conn.go
+++ b/conn.go
@@ -394,6 +394,14 @@ func (c *Conn) consumeRecord() error {
 			}
 			hm.body = pt.fragment[start+headerLen : start+headerLen+hmLen]
 
+			// What follows a KeyUpdate needs to be protected with the next keys
+			if hm.msgType == HandshakeTypeKeyUpdate && start+headerLen+hmLen < len(pt.fragment) {
+				logf(logTypeHandshake, "KeyUpdate with data left in its record")
+				c.sendAlert(AlertUnexpectedMessage)
+				c.readError = AlertUnexpectedMessage
+				return c.readError
+			}
+
 			// XXX: If we want to support more advanced cases, e.g., post-handshake
 			// authentication, we'll need to allow transitions other than
 			// Connected -> Connected
-- 
2.43.0


From 318a24b3b7fca73f4d35d4c445e3718d0dbae692 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:52:12 +0000
Subject: [PATCH 48/48] fix: PSKMapCache was not safe for a Config and its
 clones

---
 conn.go | 9 +++++++++
 1 file changed, 9 insertions(+)

diff --git a/conn.go b/conn.go
index 1ef549b..c5f0913 100644
--- a/conn.go
+++ b/conn.go
@@ -49,16 +49,25 @@ type CookieHandler interface {
 
 type PSKMapCache map[string]PreSharedKey
 
+// A Config and its clones use the same cache, but each has its own mutex
+var pskMapCacheMutex sync.RWMutex
+
 func (cache PSKMapCache) Get(key string) (psk PreSharedKey, ok bool) {
+	pskMapCacheMutex.RLock()
+	defer pskMapCacheMutex.RUnlock()
 	psk, ok = cache[key]
 	return
 }
 
 func (cache *PSKMapCache) Put(key string, psk PreSharedKey) {
+	pskMapCacheMutex.Lock()
+	defer pskMapCacheMutex.Unlock()
 	(*cache)[key] = psk
 }
 
 func (cache PSKMapCache) Size() int {
+	pskMapCacheMutex.RLock()
+	defer pskMapCacheMutex.RUnlock()
 	return len(cache)
 }
 
-- 
2.43.0

