From 050af5e3ea7fa331c80d712395c578280bbc2957 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:39:26 +0000
Subject: [PATCH 01/88] fix: reject protocol messages whose headers or envelope
 decode to nothing

---
 protocol/v1/constructors.go | 31 +++++++++++++++++++++++--------
 protocol/v2/transport.go    | 13 +++++++++----
 2 files changed, 32 insertions(+), 12 deletions(-)

diff --git a/protocol/v1/constructors.go b/protocol/v1/constructors.go
index 09ef8e2..a7f143f 100644
--- a/protocol/v1/constructors.go
+++ b/protocol/v1/constructors.go
@@ -69,22 +69,27 @@ func NewReplyFromSecureReply(sr protocol.SecureReply) (rep protocol.Reply, err e
 		return nil, fmt.Errorf("cannot create a version 1 SecureReply from a %s SecureReply", sr.Version())
 	}
 
-	rep = &Reply{
+	reply := &Reply{
 		Protocol: protocol.ReplyV1,
 		Envelope: &ReplyEnvelope{},
 	}
 
-	err = rep.IsValidJSON(sr.Message())
+	err = reply.IsValidJSON(sr.Message())
 	if err != nil {
 		return nil, fmt.Errorf("the JSON body from the SecureReply is not a valid Reply message: %s", err)
 	}
 
-	err = json.Unmarshal(sr.Message(), rep)
+	err = json.Unmarshal(sr.Message(), reply)
 	if err != nil {
 		return nil, fmt.Errorf("could not parse JSON data from Secure Reply: %s", err)
 	}
 
-	return rep, nil
+	// json keys are matched without regard for case, so a document that passes the schema can still unset this
+	if reply.Envelope == nil {
+		return nil, fmt.Errorf("the JSON body from the SecureReply has no envelope")
+	}
+
+	return reply, nil
 }
 
 // NewRequestFromSecureRequest creates a choria::request:1 based on the data contained in a SecureRequest
@@ -108,6 +113,11 @@ func NewRequestFromSecureRequest(sr protocol.SecureRequest) (protocol.Request, e
 		return nil, fmt.Errorf("could not parse JSON data from Secure Request: %s", err)
 	}
 
+	// json keys are matched without regard for case, so a document that passes the schema can still unset these
+	if req.Envelope == nil || req.Envelope.Filter == nil {
+		return nil, fmt.Errorf("the JSON body from the SecureRequest has no envelope or filter")
+	}
+
 	return req, nil
 }
 
@@ -285,19 +295,24 @@ func NewTransportMessage(certname string) (message protocol.TransportMessage, er
 
 // NewTransportFromJSON creates a new TransportMessage from JSON
 func NewTransportFromJSON(data []byte) (message protocol.TransportMessage, err error) {
-	message = &TransportMessage{
+	transport := &TransportMessage{
 		Headers: &TransportHeaders{},
 	}
 
-	err = message.IsValidJSON(data)
+	err = transport.IsValidJSON(data)
 	if err != nil {
 		return nil, err
 	}
 
-	err = json.Unmarshal(data, &message)
+	err = json.Unmarshal(data, transport)
 	if err != nil {
 		return nil, err
 	}
 
-	return message, nil
+	// json keys are matched without regard for case, so a document that passes the schema can still unset this
+	if transport.Headers == nil {
+		return nil, fmt.Errorf("the JSON document has no transport headers")
+	}
+
+	return transport, nil
 }
diff --git a/protocol/v2/transport.go b/protocol/v2/transport.go
index 31a5db9..5c6a547 100644
--- a/protocol/v2/transport.go
+++ b/protocol/v2/transport.go
@@ -58,21 +58,26 @@ func NewTransportMessage(sender string) (message protocol.TransportMessage, err
 
 // NewTransportFromJSON creates a new TransportMessage from JSON
 func NewTransportFromJSON(data []byte) (message protocol.TransportMessage, err error) {
-	message = &TransportMessage{
+	transport := &TransportMessage{
 		Headers: &TransportHeaders{},
 	}
 
-	err = message.IsValidJSON(data)
+	err = transport.IsValidJSON(data)
 	if err != nil {
 		return nil, err
 	}
 
-	err = json.Unmarshal(data, &message)
+	err = json.Unmarshal(data, transport)
 	if err != nil {
 		return nil, err
 	}
 
-	return message, nil
+	// json keys are matched without regard for case, so a document that passes the schema can still unset this
+	if transport.Headers == nil {
+		return nil, fmt.Errorf("the JSON document has no transport headers")
+	}
+
+	return transport, nil
 }
 
 func (m *TransportMessage) SetFederationRequestID(id string) {
-- 
2.43.0


From a173fda1526ee85e8e9f304ce16f6863dc53c7af Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:44:28 +0000
Subject: [PATCH 02/88] fix: fail certificate verification when certificates or
 the CA cannot be decoded

---
 providers/security/filesec/file_security.go | 16 ++++++++--------
 1 file changed, 8 insertions(+), 8 deletions(-)

diff --git a/providers/security/filesec/file_security.go b/providers/security/filesec/file_security.go
index 4f49d8b..aaeb2fe 100644
--- a/providers/security/filesec/file_security.go
+++ b/providers/security/filesec/file_security.go
@@ -353,14 +353,14 @@ func (s *FileSecurity) VerifyCertificate(certpem []byte, name string) error {
 
 	roots := x509.NewCertPool()
 	if !roots.AppendCertsFromPEM(capem) {
-		s.log.Warnf("Could not use CA '%s' as PEM data: %s", ca, err)
-		return err
+		s.log.Warnf("Could not use CA '%s' as PEM data", ca)
+		return fmt.Errorf("could not use CA '%s' as PEM data", ca)
 	}
 
 	block, _ := pem.Decode(certpem)
 	if block == nil {
-		s.log.Warnf("Could not decode certificate '%s' PEM data: %s", name, err)
-		return err
+		s.log.Warnf("Could not decode certificate '%s' PEM data", name)
+		return fmt.Errorf("could not decode certificate '%s' PEM data", name)
 	}
 
 	cert, err := x509.ParseCertificate(block.Bytes)
@@ -371,8 +371,8 @@ func (s *FileSecurity) VerifyCertificate(certpem []byte, name string) error {
 
 	intermediates := x509.NewCertPool()
 	if !intermediates.AppendCertsFromPEM(certpem) {
-		s.log.Warnf("Could not add intermediates: %s", err)
-		return err
+		s.log.Warnf("Could not add intermediates from certificate '%s'", name)
+		return fmt.Errorf("could not add intermediates from certificate '%s'", name)
 	}
 
 	opts := x509.VerifyOptions{
@@ -693,8 +693,8 @@ func (s *FileSecurity) ShouldAllowCaller(name string, callers ...[]byte) (privil
 func (s *FileSecurity) certDNSNames(certpem []byte) (names []string, err error) {
 	block, _ := pem.Decode(certpem)
 	if block == nil {
-		s.log.Warnf("Could not decode certificate PEM data: %s", err)
-		return names, err
+		s.log.Warnf("Could not decode certificate PEM data")
+		return names, fmt.Errorf("could not decode certificate PEM data")
 	}
 
 	cert, err := x509.ParseCertificate(block.Bytes)
-- 
2.43.0


From f57f98d46181c8b9c24af5869eb2a605a339b855 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:44:28 +0000
Subject: [PATCH 03/88] fix: do not panic on signatures made with certificates
 that do not hold RSA keys

---
 providers/security/filesec/file_security.go     | 7 ++++++-
 providers/security/pkcs11sec/pkcs11_security.go | 7 ++++++-
 2 files changed, 12 insertions(+), 2 deletions(-)

diff --git a/providers/security/filesec/file_security.go b/providers/security/filesec/file_security.go
index aaeb2fe..970e78f 100644
--- a/providers/security/filesec/file_security.go
+++ b/providers/security/filesec/file_security.go
@@ -293,7 +293,12 @@ func (s *FileSecurity) VerifySignatureBytes(dat []byte, sig []byte, public ...[]
 		return false, ""
 	}
 
-	rsaPublicKey := cert.PublicKey.(*rsa.PublicKey)
+	rsaPublicKey, ok := cert.PublicKey.(*rsa.PublicKey)
+	if !ok {
+		s.log.Errorf("Signature verification failed: unsupported public key type %T", cert.PublicKey)
+		return false, ""
+	}
+
 	hashed := s.ChecksumBytes(dat)
 
 	err = rsa.VerifyPKCS1v15(rsaPublicKey, crypto.SHA256, hashed[:], sig)
diff --git a/providers/security/pkcs11sec/pkcs11_security.go b/providers/security/pkcs11sec/pkcs11_security.go
index dd3ac4f..f27eb9e 100644
--- a/providers/security/pkcs11sec/pkcs11_security.go
+++ b/providers/security/pkcs11sec/pkcs11_security.go
@@ -376,7 +376,12 @@ func (p *Pkcs11Security) VerifySignatureBytes(dat []byte, sig []byte, public ...
 		cert = p.cert.Leaf
 	}
 
-	rsaPublicKey := cert.PublicKey.(*rsa.PublicKey)
+	rsaPublicKey, ok := cert.PublicKey.(*rsa.PublicKey)
+	if !ok {
+		p.log.Errorf("Signature verification failed: unsupported public key type %T", cert.PublicKey)
+		return false, ""
+	}
+
 	hashed := p.ChecksumBytes(dat)
 
 	err = rsa.VerifyPKCS1v15(rsaPublicKey, crypto.SHA256, hashed[:], sig)
-- 
2.43.0


From 62ac74599b8f27c8dd7818bb6ad882e5073a29eb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:45:13 +0000
Subject: [PATCH 04/88] fix: do not panic on client tokens without permissions

---
 providers/security/choria/choria_security.go | 3 ---
 1 file changed, 3 deletions(-)

diff --git a/providers/security/choria/choria_security.go b/providers/security/choria/choria_security.go
index fc150ac..3d79c62 100644
--- a/providers/security/choria/choria_security.go
+++ b/providers/security/choria/choria_security.go
@@ -642,9 +642,6 @@ func (s *ChoriaSecurity) shouldAllowCallerUnsigned(name string, caller []byte) (
 
 	// technically already done in sig verify but cant harm
 	if token.Permissions == nil || !(token.Permissions.SignedFleetManagement || token.Permissions.FleetManagement) {
-		if token.Permissions.SignedFleetManagement {
-			return false, fmt.Errorf("requires signed fleet management access")
-		}
 		return false, fmt.Errorf("does not have fleet management access")
 	}
 
-- 
2.43.0


From f99bc987d118ecee205307d2d12951cff341c290 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:47:33 +0000
Subject: [PATCH 05/88] fix: treat failures of the schema validator as invalid
 messages

---
 protocol/schemas.go | 9 ++-------
 1 file changed, 2 insertions(+), 7 deletions(-)

diff --git a/protocol/schemas.go b/protocol/schemas.go
index 602d74f..a0805cb 100644
--- a/protocol/schemas.go
+++ b/protocol/schemas.go
@@ -71,13 +71,8 @@ func SchemaValidate(protocol ProtocolVersion, data []byte) (valid bool, errors [
 	}
 
 	errors, err = iu.ValidateSchemaFromFS(paht, d)
-	switch err {
-	case nil:
-		return len(errors) == 0, errors, nil
-	case iu.ErrSchemaValidationFailed:
-		return false, nil, ErrSchemaValidationFailed
-	case iu.ErrSchemaUnknown:
-		return false, nil, ErrSchemaUnknown
+	if err != nil {
+		return false, nil, fmt.Errorf("%w: %v", ErrSchemaValidationFailed, err)
 	}
 
 	return len(errors) == 0, errors, nil
-- 
2.43.0


From 35360b0cd13d61fd5df76779de73616ffd131f9b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:39:42 +0000
Subject: [PATCH 06/88] fix: release the generated client lock when discovery
 fails

---
 client/aaa_signerclient/requester.go       | 2 ++
 client/choria_provisionclient/requester.go | 2 ++
 client/choria_registryclient/requester.go  | 2 ++
 client/choria_utilclient/requester.go      | 2 ++
 client/executorclient/requester.go         | 2 ++
 client/rpcutilclient/requester.go          | 2 ++
 client/scoutclient/requester.go            | 2 ++
 internal/fs/client/requester.templ         | 2 ++
 8 files changed, 16 insertions(+)

diff --git a/client/aaa_signerclient/requester.go b/client/aaa_signerclient/requester.go
index e4565dd..e574d72 100644
--- a/client/aaa_signerclient/requester.go
+++ b/client/aaa_signerclient/requester.go
@@ -45,10 +45,12 @@ func (r *requester) do(ctx context.Context, handler func(pr protocol.Reply, r *r
 
 		targets, err = discoverer.Discover(ctx, fw, filters)
 		if err != nil {
+			r.client.Unlock()
 			return nil, err
 		}
 
 		if len(targets) == 0 {
+			r.client.Unlock()
 			return nil, fmt.Errorf("no nodes were discovered")
 		}
 
diff --git a/client/choria_provisionclient/requester.go b/client/choria_provisionclient/requester.go
index 01cdc22..e892ea4 100644
--- a/client/choria_provisionclient/requester.go
+++ b/client/choria_provisionclient/requester.go
@@ -45,10 +45,12 @@ func (r *requester) do(ctx context.Context, handler func(pr protocol.Reply, r *r
 
 		targets, err = discoverer.Discover(ctx, fw, filters)
 		if err != nil {
+			r.client.Unlock()
 			return nil, err
 		}
 
 		if len(targets) == 0 {
+			r.client.Unlock()
 			return nil, fmt.Errorf("no nodes were discovered")
 		}
 
diff --git a/client/choria_registryclient/requester.go b/client/choria_registryclient/requester.go
index 38677eb..22cf885 100644
--- a/client/choria_registryclient/requester.go
+++ b/client/choria_registryclient/requester.go
@@ -45,10 +45,12 @@ func (r *requester) do(ctx context.Context, handler func(pr protocol.Reply, r *r
 
 		targets, err = discoverer.Discover(ctx, fw, filters)
 		if err != nil {
+			r.client.Unlock()
 			return nil, err
 		}
 
 		if len(targets) == 0 {
+			r.client.Unlock()
 			return nil, fmt.Errorf("no nodes were discovered")
 		}
 
diff --git a/client/choria_utilclient/requester.go b/client/choria_utilclient/requester.go
index ca14a86..f1b918f 100644
--- a/client/choria_utilclient/requester.go
+++ b/client/choria_utilclient/requester.go
@@ -45,10 +45,12 @@ func (r *requester) do(ctx context.Context, handler func(pr protocol.Reply, r *r
 
 		targets, err = discoverer.Discover(ctx, fw, filters)
 		if err != nil {
+			r.client.Unlock()
 			return nil, err
 		}
 
 		if len(targets) == 0 {
+			r.client.Unlock()
 			return nil, fmt.Errorf("no nodes were discovered")
 		}
 
diff --git a/client/executorclient/requester.go b/client/executorclient/requester.go
index b269a90..7490c87 100644
--- a/client/executorclient/requester.go
+++ b/client/executorclient/requester.go
@@ -45,10 +45,12 @@ func (r *requester) do(ctx context.Context, handler func(pr protocol.Reply, r *r
 
 		targets, err = discoverer.Discover(ctx, fw, filters)
 		if err != nil {
+			r.client.Unlock()
 			return nil, err
 		}
 
 		if len(targets) == 0 {
+			r.client.Unlock()
 			return nil, fmt.Errorf("no nodes were discovered")
 		}
 
diff --git a/client/rpcutilclient/requester.go b/client/rpcutilclient/requester.go
index b6772cb..df47918 100644
--- a/client/rpcutilclient/requester.go
+++ b/client/rpcutilclient/requester.go
@@ -45,10 +45,12 @@ func (r *requester) do(ctx context.Context, handler func(pr protocol.Reply, r *r
 
 		targets, err = discoverer.Discover(ctx, fw, filters)
 		if err != nil {
+			r.client.Unlock()
 			return nil, err
 		}
 
 		if len(targets) == 0 {
+			r.client.Unlock()
 			return nil, fmt.Errorf("no nodes were discovered")
 		}
 
diff --git a/client/scoutclient/requester.go b/client/scoutclient/requester.go
index 6d998ef..35f8d7e 100644
--- a/client/scoutclient/requester.go
+++ b/client/scoutclient/requester.go
@@ -45,10 +45,12 @@ func (r *requester) do(ctx context.Context, handler func(pr protocol.Reply, r *r
 
 		targets, err = discoverer.Discover(ctx, fw, filters)
 		if err != nil {
+			r.client.Unlock()
 			return nil, err
 		}
 
 		if len(targets) == 0 {
+			r.client.Unlock()
 			return nil, fmt.Errorf("no nodes were discovered")
 		}
 
diff --git a/internal/fs/client/requester.templ b/internal/fs/client/requester.templ
index 17441fa..9804317 100644
--- a/internal/fs/client/requester.templ
+++ b/internal/fs/client/requester.templ
@@ -45,10 +45,12 @@ func (r *requester) do(ctx context.Context, handler func(pr protocol.Reply, r *r
 
 		targets, err = discoverer.Discover(ctx, fw, filters)
 		if err != nil {
+			r.client.Unlock()
 			return nil, err
 		}
 
 		if len(targets) == 0 {
+			r.client.Unlock()
 			return nil, fmt.Errorf("no nodes were discovered")
 		}
 
-- 
2.43.0


From 1b84578f238b1ddf980eb5e56580bdb770537e1d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:39:42 +0000
Subject: [PATCH 07/88] fix: release the election lock when configuration fails

---
 providers/election/streams/election.go | 1 +
 1 file changed, 1 insertion(+)

diff --git a/providers/election/streams/election.go b/providers/election/streams/election.go
index 31688c7..cd81c28 100644
--- a/providers/election/streams/election.go
+++ b/providers/election/streams/election.go
@@ -294,6 +294,7 @@ func (e *election) Start(ctx context.Context) error {
 
 	err := e.configure(ctx)
 	if err != nil {
+		e.mu.Unlock()
 		return err
 	}
 
-- 
2.43.0


From 2ff860851ebff4b14b6f29e7da505a0c164ea885 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:39:42 +0000
Subject: [PATCH 08/88] fix: do not deadlock when stopping an election

---
 providers/election/streams/election.go | 3 +--
 1 file changed, 1 insertion(+), 2 deletions(-)

diff --git a/providers/election/streams/election.go b/providers/election/streams/election.go
index cd81c28..42699a3 100644
--- a/providers/election/streams/election.go
+++ b/providers/election/streams/election.go
@@ -324,11 +324,10 @@ func (e *election) Stop() {
 		return
 	}
 
+	// the campaign resets the state once it notices, doing that here would need the lock held above again
 	if e.cancel != nil {
 		e.cancel()
 	}
-
-	e.stop()
 }
 
 func (e *election) IsLeader() bool {
-- 
2.43.0


From cdf58f19252f4648c91308ecf2544c7d140a4556 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:42:55 +0000
Subject: [PATCH 09/88] fix: do not hold the machine lock while querying the
 state of other machines

---
 aagent/machine/machine.go | 8 +++++---
 1 file changed, 5 insertions(+), 3 deletions(-)

diff --git a/aagent/machine/machine.go b/aagent/machine/machine.go
index e7ddd86..9e0174b 100644
--- a/aagent/machine/machine.go
+++ b/aagent/machine/machine.go
@@ -272,13 +272,15 @@ func (m *Machine) ExternalEventNotify(event *TransitionNotification) {
 
 func (m *Machine) LookupExternalMachineState(name string) (string, error) {
 	m.Lock()
-	defer m.Unlock()
+	query := m.externalMachineQuery
+	m.Unlock()
 
-	if m.externalMachineQuery == nil {
+	if query == nil {
 		return "", fmt.Errorf("no external machine query registered")
 	}
 
-	return m.externalMachineQuery(name)
+	// queries lock all machines, so this machine cannot be locked while querying
+	return query(name)
 }
 
 func (m *Machine) SetExternalMachineStateQuery(f func(machine string) (string, error)) {
-- 
2.43.0


From 5d1b3cb4e784ff23c720b4c9a888cc991b95f97c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:42:55 +0000
Subject: [PATCH 10/88] fix: do not deadlock when deleting a machine with
 metric or httpswitch watchers

---
 aagent/machine/machine.go | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/aagent/machine/machine.go b/aagent/machine/machine.go
index 9e0174b..a065fde 100644
--- a/aagent/machine/machine.go
+++ b/aagent/machine/machine.go
@@ -672,11 +672,12 @@ func (m *Machine) IsStarted() bool {
 // Delete deletes a running machine by canceling its context and giving its manager
 // a change to do clean up before final termination
 func (m *Machine) Delete() {
+	// watchers access the machine while they are being deleted, so it cannot be locked yet
+	m.manager.Delete()
+
 	m.Lock()
 	defer m.Unlock()
 
-	m.manager.Delete()
-
 	if m.backoffTimer != nil {
 		m.backoffTimer.Stop()
 	}
-- 
2.43.0


From 4c4d4e05ecaf4e51116d79a7884d376e780bae6b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:53:05 +0000
Subject: [PATCH 11/88] fix: hold the lock on the metrics shared by machines
 when creating a metric watcher

---
 aagent/watchers/metricwatcher/metric.go | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/aagent/watchers/metricwatcher/metric.go b/aagent/watchers/metricwatcher/metric.go
index 8a38b1b..672b150 100644
--- a/aagent/watchers/metricwatcher/metric.go
+++ b/aagent/watchers/metricwatcher/metric.go
@@ -103,7 +103,10 @@ func New(machine model.Machine, name string, states []string, required []model.F
 	}
 
 	if !mw.properties.SkipPrometheus {
-		savePromState(machine.TextFileDirectory(), mw)
+		td := machine.TextFileDirectory()
+		mu.Lock()
+		savePromState(td, mw)
+		mu.Unlock()
 	}
 
 	return mw, nil
-- 
2.43.0


From 3fb8229a6353f7f6e09cb23b282218d2fbc5b13a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:57:15 +0000
Subject: [PATCH 12/88] fix: do not leak agents that reply after their timeout

---
 server/agents/agents.go | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/server/agents/agents.go b/server/agents/agents.go
index 10d2553..b2d7c71 100644
--- a/server/agents/agents.go
+++ b/server/agents/agents.go
@@ -364,7 +364,8 @@ func (a *Manager) Dispatch(ctx context.Context, wg *sync.WaitGroup, replies chan
 		return
 	}
 
-	result := make(chan *AgentReply)
+	// buffered so an agent that replies after the timeout can finish
+	result := make(chan *AgentReply, 1)
 
 	td := time.Duration(agent.Metadata().Timeout) * time.Second
 	a.log.Debugf("Handling message %s with timeout %s", msg.RequestID(), td)
-- 
2.43.0


From 10734ea45909dc74053cc4033126ee048813c3ce Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:57:18 +0000
Subject: [PATCH 13/88] fix: allow agents to be registered again after their
 subscriptions failed

---
 server/agents/agents.go | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/server/agents/agents.go b/server/agents/agents.go
index b2d7c71..82bceb5 100644
--- a/server/agents/agents.go
+++ b/server/agents/agents.go
@@ -335,6 +335,8 @@ func (a *Manager) subscribeAgent(ctx context.Context, name string, agent Agent,
 				conn.Unsubscribe(sub)
 			}
 
+			delete(a.subs, name)
+
 			return fmt.Errorf("subscription failed: %s", err)
 		}
 
-- 
2.43.0


From e09011c8dbb09c067293f157a253cf130dc834ba Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:07:52 +0000
Subject: [PATCH 14/88] fix: validate the content of string inputs that have no
 maximum length

---
 providers/agent/mcorpc/ddl/common/input_item.go | 6 +-----
 1 file changed, 1 insertion(+), 5 deletions(-)

diff --git a/providers/agent/mcorpc/ddl/common/input_item.go b/providers/agent/mcorpc/ddl/common/input_item.go
index 3653882..b12c337 100644
--- a/providers/agent/mcorpc/ddl/common/input_item.go
+++ b/providers/agent/mcorpc/ddl/common/input_item.go
@@ -95,12 +95,8 @@ func (i *InputItem) ValidateValue(val any) (warnings []string, err error) {
 			return warnings, fmt.Errorf("is not a string")
 		}
 
-		if i.MaxLength == 0 {
-			return warnings, nil
-		}
-
 		sval := val.(string)
-		if len(sval) > i.MaxLength {
+		if i.MaxLength != 0 && len(sval) > i.MaxLength {
 			return warnings, fmt.Errorf("is longer than %d characters", i.MaxLength)
 		}
 
-- 
2.43.0


From 6ad23265447be3d067e9100334136995662ec30c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:07:52 +0000
Subject: [PATCH 15/88] fix: remove the right agents when several external
 agents are removed at once

---
 providers/agent/mcorpc/external/provider.go | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/providers/agent/mcorpc/external/provider.go b/providers/agent/mcorpc/external/provider.go
index 57016e9..7514266 100644
--- a/providers/agent/mcorpc/external/provider.go
+++ b/providers/agent/mcorpc/external/provider.go
@@ -114,7 +114,9 @@ func (p *Provider) removeOrphanAgents(foundAgents []*agent.DDL, mgr server.Agent
 		}
 	}
 
-	for _, i := range remove {
+	// from the end so removing one does not move those still to be removed
+	for n := len(remove) - 1; n >= 0; n-- {
+		i := remove[n]
 		p.agents = append(p.agents[:i], p.agents[i+1:]...)
 	}
 
-- 
2.43.0


From ba563a4fb9bb10602b4c4bd0da6614bafe835e00 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:08:01 +0000
Subject: [PATCH 16/88] fix: do not block external agents that log very long
 lines

---
 providers/agent/mcorpc/external/agent.go | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/providers/agent/mcorpc/external/agent.go b/providers/agent/mcorpc/external/agent.go
index 009601e..50bb8ff 100644
--- a/providers/agent/mcorpc/external/agent.go
+++ b/providers/agent/mcorpc/external/agent.go
@@ -301,6 +301,9 @@ func (p *Provider) executeRequest(ctx context.Context, command string, protocol
 		for scanner.Scan() {
 			logger(scanner.Text())
 		}
+
+		// a line too long to scan ends the scanner, the agent must still be able to write
+		io.Copy(io.Discard, in)
 	}
 
 	wg.Add(1)
-- 
2.43.0


From 100eca993a1e2933528d769f52cdce04aaaf37b2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:22:40 +0000
Subject: [PATCH 17/88] fix: only signal executor jobs when the caller is
 authorized

---
 providers/agent/mcorpc/golang/executor/signal.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/providers/agent/mcorpc/golang/executor/signal.go b/providers/agent/mcorpc/golang/executor/signal.go
index 57305e8..cfadb0d 100644
--- a/providers/agent/mcorpc/golang/executor/signal.go
+++ b/providers/agent/mcorpc/golang/executor/signal.go
@@ -52,7 +52,7 @@ func signalAction(ctx context.Context, req *mcorpc.Request, reply *mcorpc.Reply,
 		return
 	}
 
-	if proxyAuthorize(p, req, agent) {
+	if !proxyAuthorize(p, req, agent) {
 		agent.Log.Warnf("Denying %s access to process created by %s#%s based on authorization policy for request %s", req.CallerID, p.Agent, p.Action, req.RequestID)
 		abort(reply, "You are not authorized to call this %s#%s", p.Agent, p.Action)
 		return
-- 
2.43.0


From 279d0ce53c92898d9857292090408d1c82b2c3e4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:22:40 +0000
Subject: [PATCH 18/88] fix: stop handling executor requests that are not valid

---
 providers/agent/mcorpc/golang/executor/signal.go | 2 ++
 providers/agent/mcorpc/golang/executor/status.go | 1 +
 2 files changed, 3 insertions(+)

diff --git a/providers/agent/mcorpc/golang/executor/signal.go b/providers/agent/mcorpc/golang/executor/signal.go
index cfadb0d..c9318ab 100644
--- a/providers/agent/mcorpc/golang/executor/signal.go
+++ b/providers/agent/mcorpc/golang/executor/signal.go
@@ -38,10 +38,12 @@ func signalAction(ctx context.Context, req *mcorpc.Request, reply *mcorpc.Reply,
 
 	if args.JobID == "" {
 		abort(reply, "ID is required")
+		return
 	}
 
 	if args.Signal < 0 {
 		abort(reply, "Signal is required")
+		return
 	}
 
 	resp := &SignalResponse{}
diff --git a/providers/agent/mcorpc/golang/executor/status.go b/providers/agent/mcorpc/golang/executor/status.go
index 4d8c6fe..e63fab5 100644
--- a/providers/agent/mcorpc/golang/executor/status.go
+++ b/providers/agent/mcorpc/golang/executor/status.go
@@ -51,6 +51,7 @@ func statusAction(ctx context.Context, req *mcorpc.Request, reply *mcorpc.Reply,
 
 	if args.JobID == "" {
 		abort(reply, "ID is required")
+		return
 	}
 
 	p, err := execution.Load(spool, args.JobID)
-- 
2.43.0


From f76a4d44a50c06dd60a527a221f4a035054f9397 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:22:40 +0000
Subject: [PATCH 19/88] fix: do not load executor jobs from outside of the
 spool

---
 providers/execution/exec.go | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/providers/execution/exec.go b/providers/execution/exec.go
index 3725df1..1f54509 100644
--- a/providers/execution/exec.go
+++ b/providers/execution/exec.go
@@ -177,6 +177,11 @@ func Load(spool string, id string) (*Process, error) {
 		return nil, ErrSpoolNotFound
 	}
 
+	// ids come from the network, they must not reach outside of the spool
+	if id == "." || !filepath.IsLocal(id) || filepath.Base(id) != id {
+		return nil, ErrSpecificationNotFound
+	}
+
 	if !iu.FileExist(jobSpec) {
 		return nil, ErrSpecificationNotFound
 	}
-- 
2.43.0


From e99dc398180bfca26033178b23ccdfaa8298dee3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:23:29 +0000
Subject: [PATCH 20/88] fix: do not use a class list that could only be read in
 part

---
 filter/classes/classes.go | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/filter/classes/classes.go b/filter/classes/classes.go
index 79ae386..9cb7560 100644
--- a/filter/classes/classes.go
+++ b/filter/classes/classes.go
@@ -96,6 +96,11 @@ func ReadClasses(file string) ([]string, error) {
 		classes = append(classes, scanner.Text())
 	}
 
+	err = scanner.Err()
+	if err != nil {
+		return []string{}, err
+	}
+
 	sort.Strings(classes)
 
 	return classes, nil
-- 
2.43.0


From dadcf0c5e03b76afb46bc64378b9dbb6594487a5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:23:29 +0000
Subject: [PATCH 21/88] fix: do not use a configuration that could only be read
 in part

---
 config/util.go | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/config/util.go b/config/util.go
index 8a95948..de63040 100644
--- a/config/util.go
+++ b/config/util.go
@@ -153,12 +153,10 @@ func parseConfig(path string, config any, prefix string, found map[string]string
 		c.ParsedFiles = append(c.ParsedFiles, path)
 	}
 
-	parseConfigContents(file, config, prefix, found)
-
-	return nil
+	return parseConfigContents(file, config, prefix, found)
 }
 
-func parseConfigContents(content io.Reader, config any, prefix string, found map[string]string) {
+func parseConfigContents(content io.Reader, config any, prefix string, found map[string]string) error {
 	scanner := bufio.NewScanner(content)
 	itemr := regexp.MustCompile(`(.+?)\s*=\s*(.+)`)
 	skipr := regexp.MustCompile(`^#|^$`)
@@ -186,4 +184,6 @@ func parseConfigContents(content io.Reader, config any, prefix string, found map
 			}
 		}
 	}
+
+	return scanner.Err()
 }
-- 
2.43.0


From 84934b18cfd6467fbc1abf0c1e2fb9ff228950a9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:23:29 +0000
Subject: [PATCH 22/88] fix: do not block external discovery commands that log
 very long lines

---
 providers/discovery/external/external.go | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/providers/discovery/external/external.go b/providers/discovery/external/external.go
index db44d40..7def160 100644
--- a/providers/discovery/external/external.go
+++ b/providers/discovery/external/external.go
@@ -175,6 +175,9 @@ func (e *External) Discover(ctx context.Context, opts ...DiscoverOption) (n []st
 		for scanner.Scan() {
 			logger(scanner.Text())
 		}
+
+		// a line too long to scan ends the scanner, the command must still be able to write
+		io.Copy(io.Discard, in)
 	}
 
 	wg.Add(1)
-- 
2.43.0


From cad00d9c40b90a43514142670bf96695aa70a9f7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:23:29 +0000
Subject: [PATCH 23/88] fix: do not corrupt the published output of supervised
 processes

---
 providers/execution/exec.go | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/providers/execution/exec.go b/providers/execution/exec.go
index 1f54509..ec773df 100644
--- a/providers/execution/exec.go
+++ b/providers/execution/exec.go
@@ -546,7 +546,8 @@ func watchOutputReader(wg *sync.WaitGroup, r io.Reader, origin string, out chan
 
 	scanner := bufio.NewScanner(r)
 	for scanner.Scan() {
-		out <- watchedLine{origin: origin, line: scanner.Bytes()}
+		// the scanner reuses its buffer while the line is being published
+		out <- watchedLine{origin: origin, line: bytes.Clone(scanner.Bytes())}
 	}
 }
 
-- 
2.43.0


From d413b6056e4387a6253c45ed07629e10d8403a98 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:23:29 +0000
Subject: [PATCH 24/88] fix: do not block supervised processes that log very
 long lines

---
 providers/execution/exec.go | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/providers/execution/exec.go b/providers/execution/exec.go
index ec773df..6c04d22 100644
--- a/providers/execution/exec.go
+++ b/providers/execution/exec.go
@@ -549,6 +549,12 @@ func watchOutputReader(wg *sync.WaitGroup, r io.Reader, origin string, out chan
 		// the scanner reuses its buffer while the line is being published
 		out <- watchedLine{origin: origin, line: bytes.Clone(scanner.Bytes())}
 	}
+
+	// a line too long to scan ends the scanner, the process must still be able to write
+	_, err := io.Copy(io.Discard, r)
+	if err != nil {
+		log.Errorf("Could not read the remaining %s: %v", origin, err)
+	}
 }
 
 func hb(ctx context.Context, wg *sync.WaitGroup, heartbeat time.Duration, submit Submitter, prefix string, p *Process, log *logrus.Entry) {
-- 
2.43.0


From 890ed8d47e6faefcdac31ea729cd3f39d4d7ecc3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:23:29 +0000
Subject: [PATCH 25/88] fix: do not lose the last output of supervised
 processes

---
 providers/execution/exec.go | 20 +++++++++++++++++---
 1 file changed, 17 insertions(+), 3 deletions(-)

diff --git a/providers/execution/exec.go b/providers/execution/exec.go
index 6c04d22..6356b6d 100644
--- a/providers/execution/exec.go
+++ b/providers/execution/exec.go
@@ -297,7 +297,7 @@ func (p *Process) StartSupervised(ctx context.Context, spool string, submit Subm
 	defer cancel()
 	wg := &sync.WaitGroup{}
 
-	var closers []io.Closer
+	var closers, outputs []io.Closer
 	var stdout, stderr io.WriteCloser
 
 	if publishOutput {
@@ -316,7 +316,8 @@ func (p *Process) StartSupervised(ctx context.Context, spool string, submit Subm
 		stdoutReader, stdout = io.Pipe()
 		stderrReader, stderr = io.Pipe()
 
-		closers = append(closers, stdout, stderr, stdoutFile, stderrFile, stdoutReader, stderrReader)
+		closers = append(closers, stdout, stderr)
+		outputs = append(outputs, stdoutFile, stderrFile, stdoutReader, stderrReader)
 
 		wg.Add(1)
 		go watchOutput(wg, io.TeeReader(stdoutReader, stdoutFile), io.TeeReader(stderrReader, stderrFile), submit, prefix, p, log)
@@ -339,6 +340,7 @@ func (p *Process) StartSupervised(ctx context.Context, spool string, submit Subm
 	cmd.Env = env
 	cmd.Stdout = stdout
 	cmd.Stderr = stderr
+	cmd.WaitDelay = 5 * time.Second
 
 	err = cmd.Start()
 	if err != nil {
@@ -369,7 +371,14 @@ func (p *Process) StartSupervised(ctx context.Context, spool string, submit Subm
 	if cmd.Process == nil {
 		waitErr = ErrStartFailed
 	} else {
-		state, waitErr = cmd.Process.Wait()
+		// waits also for the output to be copied, failures of the command are in its state
+		waitErr = cmd.Wait()
+		state = cmd.ProcessState
+
+		var exitErr *exec.ExitError
+		if errors.As(waitErr, &exitErr) || errors.Is(waitErr, exec.ErrWaitDelay) {
+			waitErr = nil
+		}
 	}
 
 	// always save then handle the error from waiting
@@ -386,6 +395,11 @@ func (p *Process) StartSupervised(ctx context.Context, spool string, submit Subm
 
 	wg.Wait()
 
+	// only once all the output was read and written
+	for _, closer := range outputs {
+		closer.Close()
+	}
+
 	msg = newSubmissionMessage(submit, fmt.Sprintf("%s.exit", prefix))
 	errMsg := ""
 	if waitErr != nil {
-- 
2.43.0


From ceeb8d07a19e48335dee676a52e0608f8d0b39ea Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:25:33 +0000
Subject: [PATCH 26/88] fix: wait for supervised processes that are stopped
 because their pid can not be saved

---
 providers/execution/exec.go | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/providers/execution/exec.go b/providers/execution/exec.go
index 6356b6d..1d6957c 100644
--- a/providers/execution/exec.go
+++ b/providers/execution/exec.go
@@ -350,6 +350,9 @@ func (p *Process) StartSupervised(ctx context.Context, spool string, submit Subm
 	// this could fail and the command could be running already...
 	err = os.WriteFile(p.PidFile, []byte(strconv.Itoa(cmd.Process.Pid)), 0700)
 	if err != nil {
+		cancel()
+		cmd.Wait()
+
 		return fmt.Errorf("%w: %s", ErrWritingPidFailed, err)
 	}
 
-- 
2.43.0


From b4b53c742ce438d1ba12f9e395ff4b4abff61892 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:25:39 +0000
Subject: [PATCH 27/88] fix: report a disowned command that could not start as
 failed

---
 aagent/watchers/execwatcher/exec.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/aagent/watchers/execwatcher/exec.go b/aagent/watchers/execwatcher/exec.go
index 355cd76..ccdd7b9 100644
--- a/aagent/watchers/execwatcher/exec.go
+++ b/aagent/watchers/execwatcher/exec.go
@@ -333,7 +333,7 @@ func (w *Watcher) watch(ctx context.Context) (state State, err error) {
 		w.Debugf("Running command disowned from parent")
 		err = cmd.Start()
 		if err != nil {
-			return 0, err
+			return Error, err
 		}
 
 		errc := make(chan error)
-- 
2.43.0


From 7083326541cee6d17c1eed79031d748ea8ae181c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:25:39 +0000
Subject: [PATCH 28/88] fix: do not leak a goroutine when a machine stops while
 a disowned command runs

---
 aagent/watchers/execwatcher/exec.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/aagent/watchers/execwatcher/exec.go b/aagent/watchers/execwatcher/exec.go
index ccdd7b9..fc3c495 100644
--- a/aagent/watchers/execwatcher/exec.go
+++ b/aagent/watchers/execwatcher/exec.go
@@ -336,7 +336,7 @@ func (w *Watcher) watch(ctx context.Context) (state State, err error) {
 			return Error, err
 		}
 
-		errc := make(chan error)
+		errc := make(chan error, 1)
 		go func() {
 			errc <- cmd.Wait()
 		}()
-- 
2.43.0


From 36a14e6e7f3eaaa1a377f15da3f7920a3b2f7ad9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:44:51 +0000
Subject: [PATCH 29/88] fix: metric watcher: do not panic on commands that are
 empty after templating

---
 aagent/watchers/metricwatcher/metric.go | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/aagent/watchers/metricwatcher/metric.go b/aagent/watchers/metricwatcher/metric.go
index 672b150..bd1536c 100644
--- a/aagent/watchers/metricwatcher/metric.go
+++ b/aagent/watchers/metricwatcher/metric.go
@@ -210,6 +210,11 @@ func (w *Watcher) watch(ctx context.Context) (state []byte, err error) {
 		return nil, err
 	}
 
+	if len(splitcmd) == 0 {
+		w.Errorf("Metric watcher %q failed: command is empty", command)
+		return nil, fmt.Errorf("command is empty")
+	}
+
 	cmd := exec.CommandContext(timeoutCtx, splitcmd[0], splitcmd[1:]...)
 	cmd.Env = append(cmd.Env, fmt.Sprintf("MACHINE_WATCHER_NAME=%s", w.name))
 	cmd.Env = append(cmd.Env, fmt.Sprintf("MACHINE_NAME=%s", w.machine.Name()))
-- 
2.43.0


From 0f73420d0834ea03ce2de7daa5da2c24e74c9b00 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:44:51 +0000
Subject: [PATCH 30/88] fix: nagios watcher: do not panic on plugin commands
 that are empty after overrides

---
 aagent/watchers/nagioswatcher/nagios.go | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/aagent/watchers/nagioswatcher/nagios.go b/aagent/watchers/nagioswatcher/nagios.go
index 8845805..2643b9b 100644
--- a/aagent/watchers/nagioswatcher/nagios.go
+++ b/aagent/watchers/nagioswatcher/nagios.go
@@ -409,6 +409,11 @@ func (w *Watcher) watchUsingPlugin(ctx context.Context) (state State, output str
 		return UNKNOWN, "", err
 	}
 
+	if len(splitcmd) == 0 {
+		w.Errorf("Exec watcher %q failed: plugin command is empty", plugin)
+		return UNKNOWN, "", fmt.Errorf("plugin command is empty")
+	}
+
 	w.previousPlugin = plugin
 
 	cmd := exec.CommandContext(timeoutCtx, splitcmd[0], splitcmd[1:]...)
-- 
2.43.0


From 790b57b79b98c09b34097f2f3552bfb544b30d22 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:44:51 +0000
Subject: [PATCH 31/88] fix: external discovery: do not panic on blank commands

---
 providers/discovery/external/external.go | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/providers/discovery/external/external.go b/providers/discovery/external/external.go
index 7def160..e410677 100644
--- a/providers/discovery/external/external.go
+++ b/providers/discovery/external/external.go
@@ -140,6 +140,9 @@ func (e *External) Discover(ctx context.Context, opts ...DiscoverOption) (n []st
 	if err != nil {
 		return nil, err
 	}
+	if len(parts) == 0 {
+		return nil, fmt.Errorf("no command specified for external discovery")
+	}
 	args = append(args, parts[0])
 	if len(parts) > 1 {
 		args = append(args, parts[1:]...)
-- 
2.43.0


From 419ddf7468c6080d914f346844869b4e2b335929 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:44:51 +0000
Subject: [PATCH 32/88] fix: nagios perf data: skip metrics without a numeric
 value rather than panic

---
 aagent/util/nagios.go | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/aagent/util/nagios.go b/aagent/util/nagios.go
index 8574480..51f8a9f 100644
--- a/aagent/util/nagios.go
+++ b/aagent/util/nagios.go
@@ -46,6 +46,10 @@ func ParsePerfData(pd string) (perf []PerfData) {
 
 		label := strings.Replace(mparts[0], " ", "_", -1)
 		valParts := valParse.FindStringSubmatch(mparts[1])
+		if len(valParts) < 2 {
+			continue
+		}
+
 		rawValue := valParts[1]
 		value, err := strconv.ParseFloat(rawValue, 64)
 		if err != nil {
-- 
2.43.0


From 54747b8154405fedca5f30f2e7878d6b1195ccaf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:44:51 +0000
Subject: [PATCH 33/88] fix: ddl: skip aggregations without arguments rather
 than panic

---
 providers/agent/mcorpc/ddl/agent/aggregators.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/providers/agent/mcorpc/ddl/agent/aggregators.go b/providers/agent/mcorpc/ddl/agent/aggregators.go
index e8b419d..899578a 100644
--- a/providers/agent/mcorpc/ddl/agent/aggregators.go
+++ b/providers/agent/mcorpc/ddl/agent/aggregators.go
@@ -53,7 +53,7 @@ func newActionAggregators(a *Action) *actionAggregators {
 		var args []any
 
 		err := json.Unmarshal(spec.Arguments, &args)
-		if err != nil {
+		if err != nil || len(args) == 0 {
 			continue
 		}
 
-- 
2.43.0


From f38405fab639e947fdd59620e23536b7100fe9b1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:44:51 +0000
Subject: [PATCH 34/88] fix: inventory discovery: do not panic on empty
 compound filters

---
 providers/discovery/inventory/inventory.go | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/providers/discovery/inventory/inventory.go b/providers/discovery/inventory/inventory.go
index dc9bb93..a0f9ddf 100644
--- a/providers/discovery/inventory/inventory.go
+++ b/providers/discovery/inventory/inventory.go
@@ -155,6 +155,10 @@ func (i *Inventory) selectMatchingNodes(ctx context.Context, d *DataFile, collec
 	)
 
 	if len(f.CompoundFilters()) > 0 {
+		if len(f.CompoundFilters()[0]) == 0 {
+			return nil, fmt.Errorf("empty compound filter")
+		}
+
 		query = f.CompoundFilters()[0][0]["expr"]
 		prog, err = compound.CompileExprQuery(query, nil)
 		if err != nil {
-- 
2.43.0


From 4ecc86af6d7e0374ef7f72805b100120a18c6d0c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:44:51 +0000
Subject: [PATCH 35/88] fix: confkey: do not panic on empty values for title
 strings

---
 confkey/confkey.go | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/confkey/confkey.go b/confkey/confkey.go
index 34e49f6..5744244 100644
--- a/confkey/confkey.go
+++ b/confkey/confkey.go
@@ -289,7 +289,9 @@ func SetStructFieldWithKey(target any, key string, value any) error {
 			switch tag {
 			case "title_string":
 				a := []rune(value.(string))
-				a[0] = unicode.ToUpper(a[0])
+				if len(a) > 0 {
+					a[0] = unicode.ToUpper(a[0])
+				}
 				*ptr = string(a)
 			case "path_string":
 				a, err := util.ExpandPath(value.(string))
-- 
2.43.0


From 2f6a9c52b72b85438957a88b25d50067ecf4d76c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:44:51 +0000
Subject: [PATCH 36/88] fix: governor: do not panic on streams without subjects

---
 providers/governor/streams/governor.go | 15 +++++++++++----
 1 file changed, 11 insertions(+), 4 deletions(-)

diff --git a/providers/governor/streams/governor.go b/providers/governor/streams/governor.go
index 8f69241..624b615 100644
--- a/providers/governor/streams/governor.go
+++ b/providers/governor/streams/governor.go
@@ -371,10 +371,17 @@ func (g *jsGMgr) Start(ctx context.Context, name string) (Finisher, uint64, erro
 func (g *jsGMgr) Reset() error {
 	return g.str.Purge()
 }
-func (g *jsGMgr) Stream() *jsm.Stream    { return g.str }
-func (g *jsGMgr) Limit() int64           { return g.str.MaxMsgs() }
-func (g *jsGMgr) MaxAge() time.Duration  { return g.str.MaxAge() }
-func (g *jsGMgr) Subject() string        { return g.str.Subjects()[0] }
+func (g *jsGMgr) Stream() *jsm.Stream   { return g.str }
+func (g *jsGMgr) Limit() int64          { return g.str.MaxMsgs() }
+func (g *jsGMgr) MaxAge() time.Duration { return g.str.MaxAge() }
+func (g *jsGMgr) Subject() string {
+	subjects := g.str.Subjects()
+	if len(subjects) == 0 {
+		return ""
+	}
+
+	return subjects[0]
+}
 func (g *jsGMgr) Replicas() int          { return g.str.Replicas() }
 func (g *jsGMgr) Connection() *nats.Conn { return g.nc }
 func (g *jsGMgr) Name() string           { return g.name }
-- 
2.43.0


From 4f2fcd727e1457f33399067278673f3f8a8e4f36 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:49:41 +0000
Subject: [PATCH 37/88] fix: machine: reject empty transitions and watchers
 rather than panic

---
 aagent/machine/machine.go | 12 ++++++++++++
 1 file changed, 12 insertions(+)

diff --git a/aagent/machine/machine.go b/aagent/machine/machine.go
index a065fde..b737955 100644
--- a/aagent/machine/machine.go
+++ b/aagent/machine/machine.go
@@ -591,6 +591,18 @@ func (m *Machine) Validate() error {
 		return fmt.Errorf("no watchers defined")
 	}
 
+	for _, t := range m.Transitions {
+		if t == nil {
+			return fmt.Errorf("empty transition defined")
+		}
+	}
+
+	for _, w := range m.WatcherDefs {
+		if w == nil {
+			return fmt.Errorf("empty watcher defined")
+		}
+	}
+
 	for _, w := range m.Watchers() {
 		err := w.ParseAnnounceInterval()
 		if err != nil {
-- 
2.43.0


From e243362f7e9b9b128252f7c55316eb58445f260a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:49:41 +0000
Subject: [PATCH 38/88] fix: ddl: reject agent DDLs without metadata or with
 empty actions rather than panic later

---
 providers/agent/mcorpc/ddl/agent/agent.go | 10 ++++++++++
 1 file changed, 10 insertions(+)

diff --git a/providers/agent/mcorpc/ddl/agent/agent.go b/providers/agent/mcorpc/ddl/agent/agent.go
index 54c2cd3..22f9609 100644
--- a/providers/agent/mcorpc/ddl/agent/agent.go
+++ b/providers/agent/mcorpc/ddl/agent/agent.go
@@ -38,6 +38,16 @@ func NewFromBytes(dat []byte) (*DDL, error) {
 		return nil, fmt.Errorf("could not parse DDL JSON data: %s", err)
 	}
 
+	if ddl.Metadata == nil {
+		return nil, fmt.Errorf("invalid DDL: no metadata")
+	}
+
+	for _, action := range ddl.Actions {
+		if action == nil {
+			return nil, fmt.Errorf("invalid DDL: empty action")
+		}
+	}
+
 	ddl.normalize()
 
 	return ddl, nil
-- 
2.43.0


From f143ec52207843a61a523b1f3b6158971de58dbf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:49:41 +0000
Subject: [PATCH 39/88] fix: statistics: reject status files without statistics
 rather than panic later

---
 statistics/instance.go | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/statistics/instance.go b/statistics/instance.go
index c9f1e5a..1f9d789 100644
--- a/statistics/instance.go
+++ b/statistics/instance.go
@@ -49,6 +49,10 @@ func LoadInstanceStatus(f string) (*InstanceStatus, error) {
 		return nil, err
 	}
 
+	if status.Stats == nil {
+		return nil, fmt.Errorf("invalid status file: no statistics")
+	}
+
 	stat, err := os.Stat(f)
 	if err != nil {
 		return nil, err
-- 
2.43.0


From 9f836700bae441db8af65b934154f16199cbea9f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:49:41 +0000
Subject: [PATCH 40/88] fix: flatfile discovery: do not panic on empty replies

---
 providers/discovery/flatfile/flatfile.go | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/providers/discovery/flatfile/flatfile.go b/providers/discovery/flatfile/flatfile.go
index ab3b8b2..7cfecdf 100644
--- a/providers/discovery/flatfile/flatfile.go
+++ b/providers/discovery/flatfile/flatfile.go
@@ -162,6 +162,10 @@ func (f *FlatFile) choriaDiscover(file io.Reader) ([]string, error) {
 
 	found := []string{}
 	for _, reply := range data.Replies {
+		if reply == nil {
+			return nil, fmt.Errorf("invalid reply in response data")
+		}
+
 		found = append(found, reply.Sender)
 	}
 
-- 
2.43.0


From d3fb620ed82972460304035e387ba9d3beba9608 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:52:35 +0000
Subject: [PATCH 41/88] fix: ddl: reject agent DDLs with empty inputs or
 outputs rather than panic later

---
 providers/agent/mcorpc/ddl/agent/agent.go | 12 ++++++++++++
 1 file changed, 12 insertions(+)

diff --git a/providers/agent/mcorpc/ddl/agent/agent.go b/providers/agent/mcorpc/ddl/agent/agent.go
index 22f9609..db708e9 100644
--- a/providers/agent/mcorpc/ddl/agent/agent.go
+++ b/providers/agent/mcorpc/ddl/agent/agent.go
@@ -46,6 +46,18 @@ func NewFromBytes(dat []byte) (*DDL, error) {
 		if action == nil {
 			return nil, fmt.Errorf("invalid DDL: empty action")
 		}
+
+		for _, input := range action.Input {
+			if input == nil {
+				return nil, fmt.Errorf("invalid DDL: empty input in action %s", action.Name)
+			}
+		}
+
+		for _, output := range action.Output {
+			if output == nil {
+				return nil, fmt.Errorf("invalid DDL: empty output in action %s", action.Name)
+			}
+		}
 	}
 
 	ddl.normalize()
-- 
2.43.0


From e70b028a9f1393bf606cebcebb617d72fef37412 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:02:08 +0000
Subject: [PATCH 42/88] fix: plugins and machines watchers: reject empty
 entries rather than panic

---
 aagent/watchers/machineswatcher/machines.go | 4 ++++
 aagent/watchers/pluginswatcher/plugins.go   | 4 ++++
 2 files changed, 8 insertions(+)

diff --git a/aagent/watchers/machineswatcher/machines.go b/aagent/watchers/machineswatcher/machines.go
index c66e2c6..b3f1621 100644
--- a/aagent/watchers/machineswatcher/machines.go
+++ b/aagent/watchers/machineswatcher/machines.go
@@ -470,6 +470,10 @@ func (w *Watcher) desiredState() ([]*ManagedMachine, error) {
 	}
 
 	for _, m := range desired {
+		if m == nil {
+			return nil, fmt.Errorf("empty entry in specification")
+		}
+
 		m.Interval = w.properties.MachineManageInterval.String()
 		m.Target = filepath.Dir(w.machine.Directory())
 
diff --git a/aagent/watchers/pluginswatcher/plugins.go b/aagent/watchers/pluginswatcher/plugins.go
index 78a6b4a..6aa5ecf 100644
--- a/aagent/watchers/pluginswatcher/plugins.go
+++ b/aagent/watchers/pluginswatcher/plugins.go
@@ -474,6 +474,10 @@ func (w *Watcher) desiredState() ([]*ManagedPlugin, error) {
 	}
 
 	for _, m := range desired {
+		if m == nil {
+			return nil, fmt.Errorf("empty entry in specification")
+		}
+
 		m.NamePrefix = w.properties.ManagerMachinePrefix
 		m.Interval = w.properties.PluginManageInterval.String()
 		m.Target = w.targetDirForManagedPlugins()
-- 
2.43.0


From 72b8c3c595d7406c156cb7ad03e3f5b2e270a3ba Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:02:09 +0000
Subject: [PATCH 43/88] fix: machines watcher: do not panic on public keys that
 are invalid

---
 aagent/watchers/machineswatcher/machines.go | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/aagent/watchers/machineswatcher/machines.go b/aagent/watchers/machineswatcher/machines.go
index b3f1621..73f58dc 100644
--- a/aagent/watchers/machineswatcher/machines.go
+++ b/aagent/watchers/machineswatcher/machines.go
@@ -7,7 +7,6 @@ package machines
 import (
 	"bytes"
 	"context"
-	"crypto/ed25519"
 	"encoding/base64"
 	"encoding/hex"
 	"encoding/json"
@@ -447,7 +446,8 @@ func (w *Watcher) loadAndValidateData() ([]byte, error) {
 			return nil, fmt.Errorf("invalid data_item")
 		}
 
-		if !ed25519.Verify(pk, payload, sig) {
+		verified, _ := iu.Ed25519Verify(pk, payload, sig)
+		if !verified {
 			w.Errorf("Signature in data_item %s did not verify using configured public key '%s', removing data", w.properties.DataItem, w.properties.PublicKey)
 			w.machine.DataDelete(w.properties.DataItem)
 			return nil, fmt.Errorf("invalid data_item")
-- 
2.43.0


From 53322d971adb5c66bf0eff1723b32adcbab789d3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:02:09 +0000
Subject: [PATCH 44/88] fix: plugins and machines watchers: names may not reach
 outside of the machine directory

---
 aagent/watchers/machineswatcher/machines.go | 4 ++++
 aagent/watchers/pluginswatcher/plugins.go   | 4 ++++
 2 files changed, 8 insertions(+)

diff --git a/aagent/watchers/machineswatcher/machines.go b/aagent/watchers/machineswatcher/machines.go
index 73f58dc..e64fa6c 100644
--- a/aagent/watchers/machineswatcher/machines.go
+++ b/aagent/watchers/machineswatcher/machines.go
@@ -481,6 +481,10 @@ func (w *Watcher) desiredState() ([]*ManagedMachine, error) {
 			return nil, fmt.Errorf("name is required")
 		}
 
+		if m.Name == "." || m.Name == ".." || strings.ContainsAny(m.Name, `/\`) {
+			return nil, fmt.Errorf("invalid name %q", m.Name)
+		}
+
 		if m.Source == "" {
 			return nil, fmt.Errorf("source is required for %s", m.Name)
 		}
diff --git a/aagent/watchers/pluginswatcher/plugins.go b/aagent/watchers/pluginswatcher/plugins.go
index 6aa5ecf..8ba9ed9 100644
--- a/aagent/watchers/pluginswatcher/plugins.go
+++ b/aagent/watchers/pluginswatcher/plugins.go
@@ -486,6 +486,10 @@ func (w *Watcher) desiredState() ([]*ManagedPlugin, error) {
 			return nil, fmt.Errorf("name is required")
 		}
 
+		if m.Name == "." || m.Name == ".." || strings.ContainsAny(m.Name, `/\`) {
+			return nil, fmt.Errorf("invalid name %q", m.Name)
+		}
+
 		if m.Source == "" {
 			return nil, fmt.Errorf("source is required for %s", m.Name)
 		}
-- 
2.43.0


From 530b34993e689c88684bf51718a935028e7916f1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:02:10 +0000
Subject: [PATCH 45/88] fix: machine: do not panic on data files without data

---
 aagent/machine/machine.go | 11 ++++++++++-
 1 file changed, 10 insertions(+), 1 deletion(-)

diff --git a/aagent/machine/machine.go b/aagent/machine/machine.go
index b737955..49f9b19 100644
--- a/aagent/machine/machine.go
+++ b/aagent/machine/machine.go
@@ -873,7 +873,16 @@ func (m *Machine) loadData() error {
 	m.dataMu.Lock()
 	defer m.dataMu.Unlock()
 
-	return json.Unmarshal(j, &m.data)
+	err = json.Unmarshal(j, &m.data)
+	if err != nil {
+		return err
+	}
+
+	if m.data == nil {
+		m.data = make(map[string]any)
+	}
+
+	return nil
 }
 
 // lock should be held by caller
-- 
2.43.0


From 62362dd87427ae14eedc08e2483cb5838cc08aa0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:19:48 +0000
Subject: [PATCH 46/88] fix: timer watcher: timers that were just started are
 stopped when their state is left

---
 aagent/watchers/timerwatcher/timer.go | 36 +++++++++++++--------------
 1 file changed, 18 insertions(+), 18 deletions(-)

diff --git a/aagent/watchers/timerwatcher/timer.go b/aagent/watchers/timerwatcher/timer.go
index 6cdf71e..a712a65 100644
--- a/aagent/watchers/timerwatcher/timer.go
+++ b/aagent/watchers/timerwatcher/timer.go
@@ -85,6 +85,8 @@ func (w *Watcher) Delete() {
 func (w *Watcher) forceTimerStop() {
 	w.mu.Lock()
 	cancel := w.cancelTimer
+	w.cancelTimer = nil
+	w.state = Stopped
 	w.mu.Unlock()
 
 	if cancel != nil {
@@ -94,46 +96,44 @@ func (w *Watcher) forceTimerStop() {
 }
 
 func (w *Watcher) timeStart() {
+	// must be set before returning so that state changes that follow immediately can stop the timer
+	ctx, cancel := context.WithCancel(context.Background())
+
 	w.mu.Lock()
-	cancel := w.cancelTimer
+	previous := w.cancelTimer
+	w.state = Running
+	w.cancelTimer = cancel
 	w.mu.Unlock()
 
-	if cancel != nil {
+	if previous != nil {
 		w.Infof("Timer was running, resetting to %v", w.properties.Timer)
-		cancel()
+		previous()
 	}
 
 	go func() {
 		timer := time.NewTimer(w.properties.Timer)
-		ctx, cancel := context.WithCancel(context.Background())
-
-		w.mu.Lock()
-		w.state = Running
-		w.cancelTimer = cancel
-		w.mu.Unlock()
+		defer timer.Stop()
 
 		w.NotifyWatcherState(w.CurrentState())
 
 		select {
 		case <-timer.C:
 			w.mu.Lock()
-			w.state = Stopped
-			if w.cancelTimer != nil {
-				w.cancelTimer()
+			// stopped or replaced at the same time
+			if ctx.Err() != nil {
+				w.mu.Unlock()
+				w.NotifyWatcherState(w.CurrentState())
+				return
 			}
+			w.state = Stopped
 			w.cancelTimer = nil
+			cancel()
 			w.mu.Unlock()
 
 			w.NotifyWatcherState(w.CurrentState())
 			w.FailureTransition()
 
 		case <-ctx.Done():
-			w.mu.Lock()
-			w.cancelTimer = nil
-			timer.Stop()
-			w.state = Stopped
-			w.mu.Unlock()
-
 			w.NotifyWatcherState(w.CurrentState())
 
 		case <-w.terminate:
-- 
2.43.0


From 8a168745d072f003fd224373f15e3e95c4fc2da0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:20:01 +0000
Subject: [PATCH 47/88] fix: timer watcher: stop running timers when the
 machine stops

---
 aagent/watchers/timerwatcher/timer.go | 1 +
 1 file changed, 1 insertion(+)

diff --git a/aagent/watchers/timerwatcher/timer.go b/aagent/watchers/timerwatcher/timer.go
index a712a65..df298d3 100644
--- a/aagent/watchers/timerwatcher/timer.go
+++ b/aagent/watchers/timerwatcher/timer.go
@@ -173,6 +173,7 @@ func (w *Watcher) Run(ctx context.Context, wg *sync.WaitGroup) {
 			return
 		case <-ctx.Done():
 			w.Infof("Stopping on context interrupt")
+			w.forceTimerStop()
 			return
 		}
 	}
-- 
2.43.0


From 74646ceb8f0bd18472b09ed573c4c6b805b2f854 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:20:04 +0000
Subject: [PATCH 48/88] fix: http switch watcher: do not block forever on
 button presses made during state changes

---
 aagent/watchers/httpswitchwatcher/httpswitch.go | 11 ++++++++---
 1 file changed, 8 insertions(+), 3 deletions(-)

diff --git a/aagent/watchers/httpswitchwatcher/httpswitch.go b/aagent/watchers/httpswitchwatcher/httpswitch.go
index 96328a9..b621715 100644
--- a/aagent/watchers/httpswitchwatcher/httpswitch.go
+++ b/aagent/watchers/httpswitchwatcher/httpswitch.go
@@ -127,7 +127,7 @@ func (w *Watcher) Run(ctx context.Context, wg *sync.WaitGroup) {
 	defer wg.Done()
 
 	if w.ShouldWatch() {
-		w.Watcher.StateChangeC() <- struct{}{}
+		w.NotifyStateChance()
 	}
 
 	for {
@@ -145,12 +145,17 @@ func (w *Watcher) Run(ctx context.Context, wg *sync.WaitGroup) {
 		case <-w.Watcher.StateChangeC():
 			mstate := w.machine.State()
 
+			// handled here, only this goroutine reads button presses so sending one could block it forever
+			var err error
 			switch {
 			case w.shouldBeOn(mstate):
-				w.buttonPress <- OnNoTransition
+				err = w.handleStateChange(OnNoTransition)
 
 			case w.shouldBeOff(mstate):
-				w.buttonPress <- OffNoTransition
+				err = w.handleStateChange(OffNoTransition)
+			}
+			if err != nil {
+				w.Errorf("Could not handle state change to %s: %v", mstate, err)
 			}
 
 		case <-ctx.Done():
-- 
2.43.0


From 813f486c47d3db3965a9aae1905bdbbd61f7d47c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:20:30 +0000
Subject: [PATCH 49/88] fix: nagios watcher: do not block the machine when a
 forced check is already pending

---
 aagent/watchers/nagioswatcher/nagios.go | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/aagent/watchers/nagioswatcher/nagios.go b/aagent/watchers/nagioswatcher/nagios.go
index 2643b9b..71aee55 100644
--- a/aagent/watchers/nagioswatcher/nagios.go
+++ b/aagent/watchers/nagioswatcher/nagios.go
@@ -239,7 +239,11 @@ func (w *Watcher) NotifyStateChance() {
 	case "FORCE_CHECK":
 		w.Infof("Forcing a check of %s", w.machineName)
 		w.force = true
-		w.StateChangeC() <- struct{}{}
+		// the machine is locked here and the check that is running might need it, a check that is pending is enough
+		select {
+		case w.StateChangeC() <- struct{}{}:
+		default:
+		}
 		return
 	}
 
-- 
2.43.0


From aa3eb65f673cbbb43c4bf7b4350d9d85c19759f8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:22:16 +0000
Subject: [PATCH 50/88] fix: gossip watcher: gossip that was just started is
 stopped when its state is left, and only started once

---
 aagent/watchers/gossipwatcher/gossip.go | 38 +++++++------------------
 1 file changed, 11 insertions(+), 27 deletions(-)

diff --git a/aagent/watchers/gossipwatcher/gossip.go b/aagent/watchers/gossipwatcher/gossip.go
index aa22aef..fc701b6 100644
--- a/aagent/watchers/gossipwatcher/gossip.go
+++ b/aagent/watchers/gossipwatcher/gossip.go
@@ -123,6 +123,7 @@ func (w *Watcher) getConn() (*nats.Conn, error) {
 func (w *Watcher) stopGossip() {
 	w.mu.Lock()
 	cancel := w.gossipCancel
+	w.gossipCancel = nil
 	w.state = Stopped
 	w.mu.Unlock()
 
@@ -134,36 +135,20 @@ func (w *Watcher) stopGossip() {
 
 func (w *Watcher) startGossip() {
 	w.mu.Lock()
-	cancel := w.gossipCancel
-	ctx := w.runCtx
-	w.mu.Unlock()
-
-	if cancel != nil {
+	if w.gossipCancel != nil {
+		w.mu.Unlock()
 		return
 	}
 
+	// must be set before returning so that state changes that follow immediately can stop the gossip
+	gCtx, cancel := context.WithCancel(w.runCtx)
+	w.state = Running
+	w.gossipCancel = cancel
+	w.mu.Unlock()
+
 	go func() {
 		tick := time.NewTicker(w.interval)
-		gCtx, cancel := context.WithCancel(ctx)
-
-		var err error
-
-		w.mu.Lock()
-		w.state = Running
-		w.gossipCancel = cancel
-		w.mu.Unlock()
-
-		if err != nil {
-			w.Errorf("Could not get a NATS connection to publish Gossip")
-		}
-
-		stop := func() {
-			w.mu.Lock()
-			w.gossipCancel = nil
-			w.state = Stopped
-			tick.Stop()
-			w.mu.Unlock()
-		}
+		defer tick.Stop()
 
 		publish := func() {
 			if !w.ShouldWatch() {
@@ -213,10 +198,9 @@ func (w *Watcher) startGossip() {
 			case <-tick.C:
 				publish()
 			case <-gCtx.Done():
-				stop()
 				return
 			case <-w.terminate:
-				stop()
+				w.stopGossip()
 				return
 			}
 		}
-- 
2.43.0


From bd6489e93ef1adae964cbce90588d247b1b4d4bb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:22:36 +0000
Subject: [PATCH 51/88] fix: ccm manifest watcher: failures to configure the
 manager are failed checks

---
 aagent/watchers/ccmmanifestwatcher/ccmmanifest.go | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/aagent/watchers/ccmmanifestwatcher/ccmmanifest.go b/aagent/watchers/ccmmanifestwatcher/ccmmanifest.go
index 79e6814..0448ab3 100644
--- a/aagent/watchers/ccmmanifestwatcher/ccmmanifest.go
+++ b/aagent/watchers/ccmmanifestwatcher/ccmmanifest.go
@@ -260,7 +260,8 @@ func (w *Watcher) watch(ctx context.Context) (state State, err error) {
 
 	mgr, ccmLog, err := w.ccmManager(w.machine.Data(), w.machine.Facts())
 	if err != nil {
-		return 0, err
+		w.Errorf("Could not configure the manifest manager: %v", err)
+		return Error, fmt.Errorf("could not configure the manifest manager: %w", err)
 	}
 
 	_, a, err := apply.ResolveManifestReader(timeoutCtx, mgr, w.machine.Directory(), manifest)
-- 
2.43.0


From cc60e22bc199f829154df446b084dca4e71ad5cf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:45:51 +0000
Subject: [PATCH 52/88] fix: nagios watcher: exit codes that are no outcome of
 a check are unknown

---
 aagent/watchers/nagioswatcher/nagios.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/aagent/watchers/nagioswatcher/nagios.go b/aagent/watchers/nagioswatcher/nagios.go
index 71aee55..7e9c02e 100644
--- a/aagent/watchers/nagioswatcher/nagios.go
+++ b/aagent/watchers/nagioswatcher/nagios.go
@@ -447,7 +447,7 @@ func (w *Watcher) watchUsingPlugin(ctx context.Context) (state State, output str
 	w.Debugf("Output from %s: %s", w.properties.Plugin, output)
 
 	s, ok := intStates[pstate.ExitCode()]
-	if ok {
+	if ok && s != SKIPPED && s != NOTCHECKED {
 		return s, output, nil
 	}
 
-- 
2.43.0


From d5b7b06db3d2c1d491dcbcce7658e5e2257c0fbc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:03:50 +0000
Subject: [PATCH 53/88] fix: provision agent: do not create a new key when the
 token of the previous one could not be removed

---
 providers/agent/mcorpc/golang/provision/ed25519_action.go | 1 +
 1 file changed, 1 insertion(+)

diff --git a/providers/agent/mcorpc/golang/provision/ed25519_action.go b/providers/agent/mcorpc/golang/provision/ed25519_action.go
index 3c86689..f14759b 100644
--- a/providers/agent/mcorpc/golang/provision/ed25519_action.go
+++ b/providers/agent/mcorpc/golang/provision/ed25519_action.go
@@ -76,6 +76,7 @@ func ed25519Action(ctx context.Context, req *mcorpc.Request, reply *mcorpc.Reply
 		err = os.Remove(jwtFile)
 		if err != nil {
 			abort(fmt.Sprintf("Could not remove existing jwt file: %v: %v", jwtFile, err), reply)
+			return
 		}
 	}
 
-- 
2.43.0


From a1a520a36c2ace7ddd1aee23c2a625ef7a214a97 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:03:50 +0000
Subject: [PATCH 54/88] fix: provision agent: do not panic on restart requests
 with a negative splay

---
 providers/agent/mcorpc/golang/provision/restart_action.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/providers/agent/mcorpc/golang/provision/restart_action.go b/providers/agent/mcorpc/golang/provision/restart_action.go
index f9f2b2d..5536d29 100644
--- a/providers/agent/mcorpc/golang/provision/restart_action.go
+++ b/providers/agent/mcorpc/golang/provision/restart_action.go
@@ -56,7 +56,7 @@ func restartAction(ctx context.Context, req *mcorpc.Request, reply *mcorpc.Reply
 		return
 	}
 
-	if args.Splay == 0 {
+	if args.Splay <= 0 {
 		args.Splay = 10
 	}
 
-- 
2.43.0


From 224ce6f24fba9416398898cf8e51d444a0687736 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:03:50 +0000
Subject: [PATCH 55/88] fix: provision agent: policies may not be written
 outside of the policies directory

---
 providers/agent/mcorpc/golang/provision/configure_action.go | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/providers/agent/mcorpc/golang/provision/configure_action.go b/providers/agent/mcorpc/golang/provision/configure_action.go
index afa68f7..8f7c7fa 100644
--- a/providers/agent/mcorpc/golang/provision/configure_action.go
+++ b/providers/agent/mcorpc/golang/provision/configure_action.go
@@ -122,6 +122,12 @@ func writeJWT(target string, token string, log *logrus.Entry) error {
 }
 
 func writePolicies(targetDir string, policies map[string]string, log *logrus.Entry) error {
+	for f := range policies {
+		if f != "" && !filepath.IsLocal(f) {
+			return fmt.Errorf("invalid policy name %q", f)
+		}
+	}
+
 	if util.FileIsDir(targetDir) {
 		err := os.RemoveAll(targetDir)
 		if err != nil {
-- 
2.43.0


From 549fc4e6e91654ccef859ea8d64da58c5244f962 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:38:00 +0000
Subject: [PATCH 56/88] fix: padding of sliced groups overwrites the array of
 the caller

Batched requests to many nodes hand sub slices of all targets to SliceGroups, the padding for the last group was appended into the
memory after that slice and so emptied the targets of the following batches
---
 internal/util/util.go | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/internal/util/util.go b/internal/util/util.go
index 6597d84..230091e 100644
--- a/internal/util/util.go
+++ b/internal/util/util.go
@@ -242,7 +242,8 @@ func SliceGroups(input []string, size int, fn func(group []string)) {
 			p = append(p, "")
 		}
 
-		input = append(input, p...)
+		// the capacity is limited so the padding never ends up in the array the caller holds
+		input = append(input[:len(input):len(input)], p...)
 	}
 
 	// how many chunks we're making
@@ -269,7 +270,8 @@ func SliceVerticalGroups(input []string, size int, fn func(group []string)) {
 			p = append(p, "")
 		}
 
-		input = append(input, p...)
+		// the capacity is limited so the padding never ends up in the array the caller holds
+		input = append(input[:len(input):len(input)], p...)
 	}
 
 	// how many chunks we're making
-- 
2.43.0


From 32cfd6119df1fc87c69c7858b8d31bef4e39ec50 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:38:00 +0000
Subject: [PATCH 57/88] fix: report federated direct requests that could not be
 published

When publishing one group of nodes failed the error was replaced by the success of the groups after it
---
 choria/connection.go | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/choria/connection.go b/choria/connection.go
index 110244c..a047007 100644
--- a/choria/connection.go
+++ b/choria/connection.go
@@ -375,6 +375,11 @@ func (conn *Connection) publishFederatedDirect(msg inter.Message, transport prot
 	var err error
 
 	util.SliceGroups(msg.DiscoveredHosts(), 200, func(nodes []string) {
+		// a group that could not be published must not be hidden by later ones
+		if err != nil {
+			return
+		}
+
 		targets := []string{}
 		var j []byte
 
-- 
2.43.0


From 20a3e17a3df4c8eec3c4d6e15fac994544821e0f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:38:00 +0000
Subject: [PATCH 58/88] fix: do not send replies that could not be encoded

A failure to encode a secure reply was ignored and a transport without data sent, a failure to create a reply was a nil dereference
---
 choria/protocol.go | 11 +++++++++--
 1 file changed, 9 insertions(+), 2 deletions(-)

diff --git a/choria/protocol.go b/choria/protocol.go
index 3c69dad..17d8b88 100644
--- a/choria/protocol.go
+++ b/choria/protocol.go
@@ -174,9 +174,13 @@ func (fw *Framework) NewReplyFromMessage(version protocol.ProtocolVersion, msg i
 	}
 
 	rep, err = fw.NewReply(req)
+	if err != nil {
+		return nil, err
+	}
+
 	rep.SetMessage(msg.Payload())
 
-	return rep, err
+	return rep, nil
 }
 
 // NewReplyFromSecureReply creates a new Reply from the JSON payload of SecureReply, the version will match what is in the JSON payload
@@ -301,7 +305,10 @@ func (fw *Framework) NewTransportForSecureReply(reply protocol.SecureReply) (mes
 		return nil, err
 	}
 
-	message.SetReplyData(reply)
+	err = message.SetReplyData(reply)
+	if err != nil {
+		return nil, err
+	}
 
 	return message, nil
 }
-- 
2.43.0


From 9d23ca4c228534059f2dbe222c441d478d8c4cc9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:42:28 +0000
Subject: [PATCH 59/88] fix: null secure replies and signed requests crash the
 receiver

---
 protocol/v1/constructors.go   | 6 +++---
 protocol/v2/secure_reply.go   | 2 +-
 protocol/v2/secure_request.go | 4 ++--
 3 files changed, 6 insertions(+), 6 deletions(-)

diff --git a/protocol/v1/constructors.go b/protocol/v1/constructors.go
index a7f143f..1ae03e4 100644
--- a/protocol/v1/constructors.go
+++ b/protocol/v1/constructors.go
@@ -161,7 +161,7 @@ func NewSecureReplyFromTransport(message protocol.TransportMessage, security int
 		return nil, fmt.Errorf("the JSON body from the TransportMessage is not a valid SecureReply message: %s", err)
 	}
 
-	err = json.Unmarshal(data, &secure)
+	err = json.Unmarshal(data, secure)
 	if err != nil {
 		return nil, err
 	}
@@ -239,7 +239,7 @@ func NewRemoteSignedSecureRequest(ctx context.Context, request protocol.Request,
 		security: security,
 	}
 
-	err = json.Unmarshal(secj, &secure)
+	err = json.Unmarshal(secj, secure)
 	if err != nil {
 		return nil, fmt.Errorf("could not parse signed request: %s", err)
 	}
@@ -267,7 +267,7 @@ func NewSecureRequestFromTransport(message protocol.TransportMessage, security i
 		return nil, fmt.Errorf("the JSON body from the TransportMessage is not a valid SecureRequest message: %s", err)
 	}
 
-	err = json.Unmarshal(data, &secure)
+	err = json.Unmarshal(data, secure)
 	if err != nil {
 		return nil, err
 	}
diff --git a/protocol/v2/secure_reply.go b/protocol/v2/secure_reply.go
index 8fbd553..d931ac1 100644
--- a/protocol/v2/secure_reply.go
+++ b/protocol/v2/secure_reply.go
@@ -72,7 +72,7 @@ func NewSecureReplyFromTransport(message protocol.TransportMessage, security int
 		return nil, fmt.Errorf("the JSON body from the TransportMessage is not a valid SecureReply message: %s", err)
 	}
 
-	err = json.Unmarshal(data, &secure)
+	err = json.Unmarshal(data, secure)
 	if err != nil {
 		return nil, err
 	}
diff --git a/protocol/v2/secure_request.go b/protocol/v2/secure_request.go
index 812bf07..f668864 100644
--- a/protocol/v2/secure_request.go
+++ b/protocol/v2/secure_request.go
@@ -94,7 +94,7 @@ func NewRemoteSignedSecureRequest(ctx context.Context, request protocol.Request,
 		security: security,
 	}
 
-	err = json.Unmarshal(secj, &secure)
+	err = json.Unmarshal(secj, secure)
 	if err != nil {
 		return nil, fmt.Errorf("could not parse signed request: %s", err)
 	}
@@ -141,7 +141,7 @@ func NewSecureRequestFromTransport(message protocol.TransportMessage, security i
 		return nil, fmt.Errorf("the JSON body from the TransportMessage is not a valid SecureRequest: %w", err)
 	}
 
-	err = json.Unmarshal(data, &secure)
+	err = json.Unmarshal(data, secure)
 	if err != nil {
 		return nil, err
 	}
-- 
2.43.0


From 9585299606168d730e55af2c901f58ee44ec1b42 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:52:55 +0000
Subject: [PATCH 60/88] fix: requests that reuse a client with many receivers
 hang

---
 client/client/client.go | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/client/client/client.go b/client/client/client.go
index 363d6f8..6f6385e 100644
--- a/client/client/client.go
+++ b/client/client/client.go
@@ -101,6 +101,9 @@ func (c *Client) Request(ctx context.Context, msg inter.Message, handler Handler
 	c.ctx, c.cancel = context.WithCancel(ctx)
 	defer c.cancel()
 
+	// signals of the receivers of earlier requests say nothing about this one
+	c.receiverReady = make(chan struct{}, c.receivers)
+
 	if handler != nil {
 		c.log.Debugf("Starting %d receivers on %s", c.receivers, msg.ReplyTo())
 
-- 
2.43.0


From a61339134d1ac89b7ecc7bc9c91ebd0c04a1bdec Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:00:53 +0000
Subject: [PATCH 61/88] fix: a limit above the number of targets adds targets
 without a name

---
 providers/agent/mcorpc/client/options.go | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/providers/agent/mcorpc/client/options.go b/providers/agent/mcorpc/client/options.go
index ad9fb5a..b377c43 100644
--- a/providers/agent/mcorpc/client/options.go
+++ b/providers/agent/mcorpc/client/options.go
@@ -402,6 +402,10 @@ func (o *RequestOptions) limitTargets(targets []string) (limited []string, err e
 		return limited, fmt.Errorf("no targets left after applying target limits of '%s'", o.LimitSize)
 	}
 
+	if count > len(targets) {
+		count = len(targets)
+	}
+
 	limited = make([]string, count)
 	copy(limited, o.shuffleLimitedTargets(targets))
 
-- 
2.43.0


From 18a7de941c7b29be5fab944262892c3a96e1b7f8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:40:45 +0000
Subject: [PATCH 62/88] fix: spooled messages that cannot be removed are
 published again and again

---
 submission/disk_spool.go | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/submission/disk_spool.go b/submission/disk_spool.go
index 36ece62..b887fb3 100644
--- a/submission/disk_spool.go
+++ b/submission/disk_spool.go
@@ -170,9 +170,9 @@ func (d *DirectorySpool) processDir(priority uint, dir string, handler func([]*M
 	found := make(map[string]struct{})
 
 	for _, entry := range entries {
-		found[entry.Name()] = struct{}{}
-
 		msgPath := filepath.Join(dir, entry.Name())
+		found[msgPath] = struct{}{}
+
 		if _, skip := skipList[msgPath]; skip {
 			os.Remove(msgPath) // maybe it works this time
 			continue
-- 
2.43.0


From 717b9ff426a5c07b43db5e2b9cd3ad541d41d0d1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:40:45 +0000
Subject: [PATCH 63/88] fix: the ttl of submitted messages is rounded down to
 whole seconds

---
 submission/msg.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/submission/msg.go b/submission/msg.go
index 7151a1d..d7e64ab 100644
--- a/submission/msg.go
+++ b/submission/msg.go
@@ -99,7 +99,7 @@ func (m *Message) Validate() error {
 		return fmt.Errorf("sender is required")
 	}
 
-	if time.Since(m.Created) > (time.Duration(m.TTL) * time.Second) {
+	if time.Since(m.Created) > time.Duration(m.TTL*float64(time.Second)) {
 		return ErrMessageExpired
 	}
 
-- 
2.43.0


From f3601f70eb992fabfa4c4bbf4b14f9d1a006e0a7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:40:45 +0000
Subject: [PATCH 64/88] fix: a crash while the tries of a spooled message are
 updated loses it

---
 submission/disk_spool.go | 25 +++++++++++++++----------
 1 file changed, 15 insertions(+), 10 deletions(-)

diff --git a/submission/disk_spool.go b/submission/disk_spool.go
index b887fb3..b2b2c1c 100644
--- a/submission/disk_spool.go
+++ b/submission/disk_spool.go
@@ -109,7 +109,7 @@ func (d *DirectorySpool) IncrementTries(m *Message) error {
 		return err
 	}
 
-	err = os.WriteFile(m.sm.(string), jm, 0600)
+	err = d.writeMessage(m.sm.(string), jm)
 	if err != nil {
 		d.log.Errorf("Could not increment tries in message %s, discarding: %s", m.sm, err)
 		d.slMu.Lock()
@@ -338,27 +338,32 @@ func (d *DirectorySpool) Submit(msg *Message) error {
 		return err
 	}
 
-	f, err := os.CreateTemp(d.directory, "")
+	out := d.newMsgPath(msg.Priority)
+	err = d.writeMessage(out, j)
 	if err != nil {
 		return err
 	}
-	f.Close()
-	defer os.Remove(f.Name())
 
-	err = os.WriteFile(f.Name(), j, 0600)
+	d.log.Infof("Submitted a message to %s", out)
+
+	return nil
+}
+
+// writeMessage atomically creates or replaces the message in path
+func (d *DirectorySpool) writeMessage(path string, j []byte) error {
+	f, err := os.CreateTemp(d.directory, "")
 	if err != nil {
 		return err
 	}
+	f.Close()
+	defer os.Remove(f.Name())
 
-	out := d.newMsgPath(msg.Priority)
-	err = os.Rename(f.Name(), out)
+	err = os.WriteFile(f.Name(), j, 0600)
 	if err != nil {
 		return err
 	}
 
-	d.log.Infof("Submitted a message to %s", out)
-
-	return nil
+	return os.Rename(f.Name(), path)
 }
 
 func (d *DirectorySpool) createSpool() error {
-- 
2.43.0


From 6d0839ec440284a28345ac438aee856156bda685 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:29:55 +0000
Subject: [PATCH 65/88] fix: a compound filter that does not match is outvoted
 by two that do

---
 filter/compound/compound.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/filter/compound/compound.go b/filter/compound/compound.go
index 628b1cf..d90b488 100644
--- a/filter/compound/compound.go
+++ b/filter/compound/compound.go
@@ -101,7 +101,7 @@ func MatchExprString(queries [][]map[string]string, facts json.RawMessage, class
 		if res {
 			matched++
 		} else {
-			matched--
+			failed++
 		}
 	}
 
-- 
2.43.0


From 4154d51020c76ab2a6617dfed6ae3c9f3f6f785c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:29:55 +0000
Subject: [PATCH 66/88] fix: a number fact equal to a fractional value is
 matched as being greater

---
 filter/facts/matchers.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/filter/facts/matchers.go b/filter/facts/matchers.go
index 42f5bf4..3debf41 100644
--- a/filter/facts/matchers.go
+++ b/filter/facts/matchers.go
@@ -169,7 +169,7 @@ func gtMatch(fact gjson.Result, value string) (bool, error) {
 				return false, err
 			}
 
-			return fact.Float() >= f, nil
+			return fact.Float() > f, nil
 		}
 
 		v, err := strconv.Atoi(value)
-- 
2.43.0


From 5e8d0d88d5e900fa08e4032149392e6eaff86ccc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:29:55 +0000
Subject: [PATCH 67/88] fix: classes with capitals in their names never match
 by name

---
 filter/classes/classes.go | 3 +--
 1 file changed, 1 insertion(+), 2 deletions(-)

diff --git a/filter/classes/classes.go b/filter/classes/classes.go
index 9cb7560..cca72a8 100644
--- a/filter/classes/classes.go
+++ b/filter/classes/classes.go
@@ -70,9 +70,8 @@ func hasClassMatching(needle string, stack []string) bool {
 }
 
 func hasClass(needle string, stack []string) bool {
-	lneedle := strings.ToLower(needle)
 	for _, class := range stack {
-		if class == lneedle {
+		if strings.EqualFold(class, needle) {
 			return true
 		}
 	}
-- 
2.43.0


From f29b6e8ce761b471fdb07e6b85ac2a5356fae39d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:29:55 +0000
Subject: [PATCH 68/88] fix: the fractions of number facts are ignored when
 compared to whole numbers

---
 filter/facts/matchers.go | 23 +++++++++++++++++------
 1 file changed, 17 insertions(+), 6 deletions(-)

diff --git a/filter/facts/matchers.go b/filter/facts/matchers.go
index 3debf41..83a8131 100644
--- a/filter/facts/matchers.go
+++ b/filter/facts/matchers.go
@@ -19,7 +19,7 @@ func eqMatch(fact gjson.Result, value string) (bool, error) {
 		return strings.EqualFold(fact.String(), value), nil
 
 	case gjson.Number:
-		if strings.Contains(value, ".") {
+		if hasFraction(fact, value) {
 			v, err := strconv.ParseFloat(value, 64)
 			if err != nil {
 				return false, err
@@ -82,7 +82,7 @@ func leMatch(fact gjson.Result, value string) (bool, error) {
 		return strings.ToLower(fact.String()) <= strings.ToLower(value), nil
 
 	case gjson.Number:
-		if strings.Contains(value, ".") {
+		if hasFraction(fact, value) {
 			v, err := strconv.ParseFloat(value, 64)
 			if err != nil {
 				return false, err
@@ -109,7 +109,7 @@ func geMatch(fact gjson.Result, value string) (bool, error) {
 		return strings.ToLower(fact.String()) >= strings.ToLower(value), nil
 
 	case gjson.Number:
-		if strings.Contains(value, ".") {
+		if hasFraction(fact, value) {
 			v, err := strconv.ParseFloat(value, 64)
 			if err != nil {
 				return false, err
@@ -136,7 +136,7 @@ func ltMatch(fact gjson.Result, value string) (bool, error) {
 		return strings.ToLower(fact.String()) < strings.ToLower(value), nil
 
 	case gjson.Number:
-		if strings.Contains(value, ".") {
+		if hasFraction(fact, value) {
 			v, err := strconv.ParseFloat(value, 64)
 			if err != nil {
 				return false, err
@@ -163,7 +163,7 @@ func gtMatch(fact gjson.Result, value string) (bool, error) {
 		return strings.ToLower(fact.String()) > strings.ToLower(value), nil
 
 	case gjson.Number:
-		if strings.Contains(value, ".") {
+		if hasFraction(fact, value) {
 			f, err := strconv.ParseFloat(value, 64)
 			if err != nil {
 				return false, err
@@ -190,7 +190,7 @@ func neMatch(fact gjson.Result, value string) (bool, error) {
 		return !strings.EqualFold(fact.String(), value), nil
 
 	case gjson.Number:
-		if strings.Contains(value, ".") {
+		if hasFraction(fact, value) {
 			f, err := strconv.ParseFloat(value, 64)
 			if err != nil {
 				return false, err
@@ -232,6 +232,17 @@ func regexMatch(value string, pattern string) (bool, error) {
 	return re.MatchString(value), nil
 }
 
+// hasFraction determines if either side has a fractional part, comparing these as int would lose it
+func hasFraction(fact gjson.Result, value string) bool {
+	if strings.Contains(value, ".") {
+		return true
+	}
+
+	_, err := strconv.ParseFloat(value, 64)
+
+	return err == nil && strings.Contains(fact.Raw, ".")
+}
+
 func truthy(value string) bool {
 	b, err := strconv.ParseBool(value)
 
-- 
2.43.0


From ce4a1ed903f43e1c35e345a0533893d04c98a937 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:57:17 +0000
Subject: [PATCH 69/88] fix: inventory discovery ignores all but the first
 compound filter

---
 providers/discovery/inventory/inventory.go | 30 ++++++++++++++--------
 1 file changed, 20 insertions(+), 10 deletions(-)

diff --git a/providers/discovery/inventory/inventory.go b/providers/discovery/inventory/inventory.go
index a0f9ddf..2009744 100644
--- a/providers/discovery/inventory/inventory.go
+++ b/providers/discovery/inventory/inventory.go
@@ -149,21 +149,20 @@ func (i *Inventory) isValidGroupLookup(f *protocol.Filter) (grouped bool, err er
 func (i *Inventory) selectMatchingNodes(ctx context.Context, d *DataFile, collective string, f *protocol.Filter) ([]string, error) {
 	var (
 		matched []string
-		query   string
-		prog    *vm.Program
-		err     error
+		progs   []*vm.Program
 	)
 
-	if len(f.CompoundFilters()) > 0 {
-		if len(f.CompoundFilters()[0]) == 0 {
+	for _, cf := range f.CompoundFilters() {
+		if len(cf) == 0 {
 			return nil, fmt.Errorf("empty compound filter")
 		}
 
-		query = f.CompoundFilters()[0][0]["expr"]
-		prog, err = compound.CompileExprQuery(query, nil)
+		prog, err := compound.CompileExprQuery(cf[0]["expr"], nil)
 		if err != nil {
 			return nil, err
 		}
+
+		progs = append(progs, prog)
 	}
 
 	for _, node := range d.Nodes {
@@ -214,9 +213,8 @@ func (i *Inventory) selectMatchingNodes(ctx context.Context, d *DataFile, collec
 			}
 		}
 
-		if len(f.CompoundFilters()) > 0 {
-			b, _ := compound.MatchExprProgram(prog, node.Facts, node.Classes, node.Agents, nil, i.log)
-			if b {
+		if len(progs) > 0 {
+			if i.matchPrograms(progs, node) {
 				passed++
 			} else {
 				continue
@@ -231,6 +229,18 @@ func (i *Inventory) selectMatchingNodes(ctx context.Context, d *DataFile, collec
 	return matched, nil
 }
 
+// matchPrograms determines if all the compiled compound filters match the node
+func (i *Inventory) matchPrograms(progs []*vm.Program, node Node) bool {
+	for _, prog := range progs {
+		b, err := compound.MatchExprProgram(prog, node.Facts, node.Classes, node.Agents, nil, i.log)
+		if err != nil || !b {
+			return false
+		}
+	}
+
+	return true
+}
+
 // ReadInventory reads and validates an inventory file
 func ReadInventory(path string, noValidate bool) (*DataFile, error) {
 	var err error
-- 
2.43.0


From 7751f26bd35e9aaff4903f1bebcde55a19c900f3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:57:19 +0000
Subject: [PATCH 70/88] fix: external discovery removes the command from the
 options of its caller

---
 providers/discovery/external/external.go | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/providers/discovery/external/external.go b/providers/discovery/external/external.go
index e410677..7cfc748 100644
--- a/providers/discovery/external/external.go
+++ b/providers/discovery/external/external.go
@@ -11,6 +11,7 @@ import (
 	"errors"
 	"fmt"
 	"io"
+	"maps"
 	"os"
 	"os/exec"
 	"path/filepath"
@@ -92,6 +93,9 @@ func (e *External) Discover(ctx context.Context, opts ...DiscoverOption) (n []st
 	command, ok := dopts.do["command"]
 	if ok && command != "" {
 		dopts.command = command
+
+		// the options belong to the caller who might discover again
+		dopts.do = maps.Clone(dopts.do)
 		delete(dopts.do, "command")
 	}
 
-- 
2.43.0


From dc87b900270a2e1f590279520a8f2169d13490e0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:57:21 +0000
Subject: [PATCH 71/88] fix: merging discovery options ignores the dynamic
 discovery timeout

---
 client/discovery/cli_helper.go | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/client/discovery/cli_helper.go b/client/discovery/cli_helper.go
index a33456c..bf0494f 100644
--- a/client/discovery/cli_helper.go
+++ b/client/discovery/cli_helper.go
@@ -76,6 +76,9 @@ func (o *StandardOptions) Merge(opt *StandardOptions) {
 	if opt.DiscoveryTimeout > 0 {
 		o.DiscoveryTimeout = opt.DiscoveryTimeout
 	}
+	if opt.DynamicDiscoveryTimeout {
+		o.DynamicDiscoveryTimeout = opt.DynamicDiscoveryTimeout
+	}
 	if opt.NodesFile != "" {
 		o.NodesFile = opt.NodesFile
 	}
-- 
2.43.0


From 97af71aefc5f8085300785eaf31346f8e75e7908 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:57:41 +0000
Subject: [PATCH 72/88] fix: broadcast discovery allows nanoseconds and not
 seconds for connecting

---
 providers/discovery/broadcast/broadcast.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/providers/discovery/broadcast/broadcast.go b/providers/discovery/broadcast/broadcast.go
index 5d7c3a7..62893d8 100644
--- a/providers/discovery/broadcast/broadcast.go
+++ b/providers/discovery/broadcast/broadcast.go
@@ -99,7 +99,7 @@ func (b *Broadcast) Discover(ctx context.Context, opts ...DiscoverOption) (n []s
 
 	// wrapping it ensures the initial connection does not run forever and inherits the parent ^C handling etc
 	// the +2 gives some additional time to the whole request for network connect time etc
-	rctx, cancel := context.WithTimeout(ctx, dopts.timeout+2)
+	rctx, cancel := context.WithTimeout(ctx, dopts.timeout+2*time.Second)
 	defer cancel()
 
 	err = dopts.cl.Request(rctx, dopts.msg, b.handler(ctx, cancel, dopts))
-- 
2.43.0


From b7c0dc60edd3e55c61c6a5b33e682e0523c078b5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:58:06 +0000
Subject: [PATCH 73/88] fix: resetting the options of generated clients keeps
 nodes that were discovered and options

---
 client/aaa_signerclient/rpcoptions.go       | 5 +++++
 client/choria_provisionclient/rpcoptions.go | 5 +++++
 client/choria_registryclient/rpcoptions.go  | 5 +++++
 client/choria_utilclient/rpcoptions.go      | 5 +++++
 client/executorclient/rpcoptions.go         | 5 +++++
 client/rpcutilclient/rpcoptions.go          | 5 +++++
 client/scoutclient/rpcoptions.go            | 5 +++++
 internal/fs/client/rpcoptions.templ         | 5 +++++
 8 files changed, 40 insertions(+)

diff --git a/client/aaa_signerclient/rpcoptions.go b/client/aaa_signerclient/rpcoptions.go
index 58ec6e9..678eed5 100644
--- a/client/aaa_signerclient/rpcoptions.go
+++ b/client/aaa_signerclient/rpcoptions.go
@@ -17,10 +17,15 @@ func (p *AaaSignerClient) OptionReset() *AaaSignerClient {
 	p.clientRPCOpts = []rpcclient.RequestOption{}
 	p.ns = p.clientOpts.ns
 	p.targets = []string{}
+	p.workers = 0
+	p.exprFilter = ""
+	p.noReplies = false
 	p.filters = []FilterFunc{
 		FilterFunc(coreclient.AgentFilter("aaa_signer")),
 	}
 
+	p.ns.Reset()
+
 	return p
 }
 
diff --git a/client/choria_provisionclient/rpcoptions.go b/client/choria_provisionclient/rpcoptions.go
index 641b473..6c7f42d 100644
--- a/client/choria_provisionclient/rpcoptions.go
+++ b/client/choria_provisionclient/rpcoptions.go
@@ -17,10 +17,15 @@ func (p *ChoriaProvisionClient) OptionReset() *ChoriaProvisionClient {
 	p.clientRPCOpts = []rpcclient.RequestOption{}
 	p.ns = p.clientOpts.ns
 	p.targets = []string{}
+	p.workers = 0
+	p.exprFilter = ""
+	p.noReplies = false
 	p.filters = []FilterFunc{
 		FilterFunc(coreclient.AgentFilter("choria_provision")),
 	}
 
+	p.ns.Reset()
+
 	return p
 }
 
diff --git a/client/choria_registryclient/rpcoptions.go b/client/choria_registryclient/rpcoptions.go
index db796ac..c119cb6 100644
--- a/client/choria_registryclient/rpcoptions.go
+++ b/client/choria_registryclient/rpcoptions.go
@@ -17,10 +17,15 @@ func (p *ChoriaRegistryClient) OptionReset() *ChoriaRegistryClient {
 	p.clientRPCOpts = []rpcclient.RequestOption{}
 	p.ns = p.clientOpts.ns
 	p.targets = []string{}
+	p.workers = 0
+	p.exprFilter = ""
+	p.noReplies = false
 	p.filters = []FilterFunc{
 		FilterFunc(coreclient.AgentFilter("choria_registry")),
 	}
 
+	p.ns.Reset()
+
 	return p
 }
 
diff --git a/client/choria_utilclient/rpcoptions.go b/client/choria_utilclient/rpcoptions.go
index d31076c..6e75589 100644
--- a/client/choria_utilclient/rpcoptions.go
+++ b/client/choria_utilclient/rpcoptions.go
@@ -17,10 +17,15 @@ func (p *ChoriaUtilClient) OptionReset() *ChoriaUtilClient {
 	p.clientRPCOpts = []rpcclient.RequestOption{}
 	p.ns = p.clientOpts.ns
 	p.targets = []string{}
+	p.workers = 0
+	p.exprFilter = ""
+	p.noReplies = false
 	p.filters = []FilterFunc{
 		FilterFunc(coreclient.AgentFilter("choria_util")),
 	}
 
+	p.ns.Reset()
+
 	return p
 }
 
diff --git a/client/executorclient/rpcoptions.go b/client/executorclient/rpcoptions.go
index db5798e..291383b 100644
--- a/client/executorclient/rpcoptions.go
+++ b/client/executorclient/rpcoptions.go
@@ -17,10 +17,15 @@ func (p *ExecutorClient) OptionReset() *ExecutorClient {
 	p.clientRPCOpts = []rpcclient.RequestOption{}
 	p.ns = p.clientOpts.ns
 	p.targets = []string{}
+	p.workers = 0
+	p.exprFilter = ""
+	p.noReplies = false
 	p.filters = []FilterFunc{
 		FilterFunc(coreclient.AgentFilter("executor")),
 	}
 
+	p.ns.Reset()
+
 	return p
 }
 
diff --git a/client/rpcutilclient/rpcoptions.go b/client/rpcutilclient/rpcoptions.go
index f7aaa38..62aa0f7 100644
--- a/client/rpcutilclient/rpcoptions.go
+++ b/client/rpcutilclient/rpcoptions.go
@@ -17,10 +17,15 @@ func (p *RpcutilClient) OptionReset() *RpcutilClient {
 	p.clientRPCOpts = []rpcclient.RequestOption{}
 	p.ns = p.clientOpts.ns
 	p.targets = []string{}
+	p.workers = 0
+	p.exprFilter = ""
+	p.noReplies = false
 	p.filters = []FilterFunc{
 		FilterFunc(coreclient.AgentFilter("rpcutil")),
 	}
 
+	p.ns.Reset()
+
 	return p
 }
 
diff --git a/client/scoutclient/rpcoptions.go b/client/scoutclient/rpcoptions.go
index 2b5d0e3..a21bf27 100644
--- a/client/scoutclient/rpcoptions.go
+++ b/client/scoutclient/rpcoptions.go
@@ -17,10 +17,15 @@ func (p *ScoutClient) OptionReset() *ScoutClient {
 	p.clientRPCOpts = []rpcclient.RequestOption{}
 	p.ns = p.clientOpts.ns
 	p.targets = []string{}
+	p.workers = 0
+	p.exprFilter = ""
+	p.noReplies = false
 	p.filters = []FilterFunc{
 		FilterFunc(coreclient.AgentFilter("scout")),
 	}
 
+	p.ns.Reset()
+
 	return p
 }
 
diff --git a/internal/fs/client/rpcoptions.templ b/internal/fs/client/rpcoptions.templ
index 68c65c6..6a3f59d 100644
--- a/internal/fs/client/rpcoptions.templ
+++ b/internal/fs/client/rpcoptions.templ
@@ -17,10 +17,15 @@ func (p *{{ .DDL.Metadata.Name | SnakeToCamel }}Client) OptionReset() *{{ .DDL.M
 	p.clientRPCOpts = []rpcclient.RequestOption{}
 	p.ns = p.clientOpts.ns
 	p.targets = []string{}
+	p.workers = 0
+	p.exprFilter = ""
+	p.noReplies = false
 	p.filters = []FilterFunc{
 	    FilterFunc(coreclient.AgentFilter("{{ .DDL.Metadata.Name }}")),
 	}
 
+	p.ns.Reset()
+
 	return p
 }
 
-- 
2.43.0


From 7d2631945fffc0f40ab87a4b257bfe6d221bd0ee Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:58:07 +0000
Subject: [PATCH 74/88] fix: requests of generated clients look at targets that
 can be changing

---
 client/aaa_signerclient/requester.go       | 2 +-
 client/choria_provisionclient/requester.go | 2 +-
 client/choria_registryclient/requester.go  | 2 +-
 client/choria_utilclient/requester.go      | 2 +-
 client/executorclient/requester.go         | 2 +-
 client/rpcutilclient/requester.go          | 2 +-
 client/scoutclient/requester.go            | 2 +-
 internal/fs/client/requester.templ         | 2 +-
 8 files changed, 8 insertions(+), 8 deletions(-)

diff --git a/client/aaa_signerclient/requester.go b/client/aaa_signerclient/requester.go
index e574d72..e796d78 100644
--- a/client/aaa_signerclient/requester.go
+++ b/client/aaa_signerclient/requester.go
@@ -22,10 +22,10 @@ type requester struct {
 
 // do performs the request
 func (r *requester) do(ctx context.Context, handler func(pr protocol.Reply, r *rpcclient.RPCReply)) (*rpcclient.Stats, error) {
-	targets := make([]string, len(r.client.targets))
 	var err error
 
 	r.client.Lock()
+	targets := make([]string, len(r.client.targets))
 	copy(targets, r.client.targets)
 	discoverer := r.client.ns
 	filters := r.client.filters
diff --git a/client/choria_provisionclient/requester.go b/client/choria_provisionclient/requester.go
index e892ea4..d49b358 100644
--- a/client/choria_provisionclient/requester.go
+++ b/client/choria_provisionclient/requester.go
@@ -22,10 +22,10 @@ type requester struct {
 
 // do performs the request
 func (r *requester) do(ctx context.Context, handler func(pr protocol.Reply, r *rpcclient.RPCReply)) (*rpcclient.Stats, error) {
-	targets := make([]string, len(r.client.targets))
 	var err error
 
 	r.client.Lock()
+	targets := make([]string, len(r.client.targets))
 	copy(targets, r.client.targets)
 	discoverer := r.client.ns
 	filters := r.client.filters
diff --git a/client/choria_registryclient/requester.go b/client/choria_registryclient/requester.go
index 22cf885..558d1dd 100644
--- a/client/choria_registryclient/requester.go
+++ b/client/choria_registryclient/requester.go
@@ -22,10 +22,10 @@ type requester struct {
 
 // do performs the request
 func (r *requester) do(ctx context.Context, handler func(pr protocol.Reply, r *rpcclient.RPCReply)) (*rpcclient.Stats, error) {
-	targets := make([]string, len(r.client.targets))
 	var err error
 
 	r.client.Lock()
+	targets := make([]string, len(r.client.targets))
 	copy(targets, r.client.targets)
 	discoverer := r.client.ns
 	filters := r.client.filters
diff --git a/client/choria_utilclient/requester.go b/client/choria_utilclient/requester.go
index f1b918f..6d7df9c 100644
--- a/client/choria_utilclient/requester.go
+++ b/client/choria_utilclient/requester.go
@@ -22,10 +22,10 @@ type requester struct {
 
 // do performs the request
 func (r *requester) do(ctx context.Context, handler func(pr protocol.Reply, r *rpcclient.RPCReply)) (*rpcclient.Stats, error) {
-	targets := make([]string, len(r.client.targets))
 	var err error
 
 	r.client.Lock()
+	targets := make([]string, len(r.client.targets))
 	copy(targets, r.client.targets)
 	discoverer := r.client.ns
 	filters := r.client.filters
diff --git a/client/executorclient/requester.go b/client/executorclient/requester.go
index 7490c87..cdf8c0c 100644
--- a/client/executorclient/requester.go
+++ b/client/executorclient/requester.go
@@ -22,10 +22,10 @@ type requester struct {
 
 // do performs the request
 func (r *requester) do(ctx context.Context, handler func(pr protocol.Reply, r *rpcclient.RPCReply)) (*rpcclient.Stats, error) {
-	targets := make([]string, len(r.client.targets))
 	var err error
 
 	r.client.Lock()
+	targets := make([]string, len(r.client.targets))
 	copy(targets, r.client.targets)
 	discoverer := r.client.ns
 	filters := r.client.filters
diff --git a/client/rpcutilclient/requester.go b/client/rpcutilclient/requester.go
index df47918..bdef2e6 100644
--- a/client/rpcutilclient/requester.go
+++ b/client/rpcutilclient/requester.go
@@ -22,10 +22,10 @@ type requester struct {
 
 // do performs the request
 func (r *requester) do(ctx context.Context, handler func(pr protocol.Reply, r *rpcclient.RPCReply)) (*rpcclient.Stats, error) {
-	targets := make([]string, len(r.client.targets))
 	var err error
 
 	r.client.Lock()
+	targets := make([]string, len(r.client.targets))
 	copy(targets, r.client.targets)
 	discoverer := r.client.ns
 	filters := r.client.filters
diff --git a/client/scoutclient/requester.go b/client/scoutclient/requester.go
index 35f8d7e..75e1ada 100644
--- a/client/scoutclient/requester.go
+++ b/client/scoutclient/requester.go
@@ -22,10 +22,10 @@ type requester struct {
 
 // do performs the request
 func (r *requester) do(ctx context.Context, handler func(pr protocol.Reply, r *rpcclient.RPCReply)) (*rpcclient.Stats, error) {
-	targets := make([]string, len(r.client.targets))
 	var err error
 
 	r.client.Lock()
+	targets := make([]string, len(r.client.targets))
 	copy(targets, r.client.targets)
 	discoverer := r.client.ns
 	filters := r.client.filters
diff --git a/internal/fs/client/requester.templ b/internal/fs/client/requester.templ
index 9804317..18c6655 100644
--- a/internal/fs/client/requester.templ
+++ b/internal/fs/client/requester.templ
@@ -22,10 +22,10 @@ type requester struct {
 
 // do performs the request
 func (r *requester) do(ctx context.Context, handler func(pr protocol.Reply, r *rpcclient.RPCReply)) (*rpcclient.Stats, error) {
-	targets := make([]string, len(r.client.targets))
 	var err error
 
 	r.client.Lock()
+	targets := make([]string, len(r.client.targets))
 	copy(targets, r.client.targets)
 	discoverer := r.client.ns
 	filters := r.client.filters
-- 
2.43.0


From 64bb96e78e2e7b659b569b46808832be2ce55737 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:59:03 +0000
Subject: [PATCH 75/88] fix: outputs of generated clients panic when they are
 numbers or not in a reply

---
 client/aaa_signerclient/action_sign.go        |  5 +-
 .../action_configure.go                       |  5 +-
 .../choria_provisionclient/action_gen25519.go | 15 ++--
 .../choria_provisionclient/action_gencsr.go   | 15 ++--
 client/choria_provisionclient/action_jwt.go   | 10 ++-
 .../action_release_update.go                  |  5 +-
 .../action_reprovision.go                     |  5 +-
 .../choria_provisionclient/action_restart.go  |  5 +-
 .../choria_provisionclient/action_shutdown.go |  5 +-
 client/choria_registryclient/action_ddl.go    | 20 +++--
 client/choria_registryclient/action_names.go  | 10 ++-
 client/choria_utilclient/action_info.go       | 80 +++++++++++--------
 .../choria_utilclient/action_machine_state.go | 40 ++++++----
 .../action_machine_states.go                  | 15 ++--
 .../action_machine_transition.go              |  5 +-
 client/executorclient/action_list.go          |  5 +-
 client/executorclient/action_signal.go        | 10 ++-
 client/executorclient/action_status.go        | 75 ++++++++++-------
 .../rpcutilclient/action_agent_inventory.go   |  5 +-
 .../rpcutilclient/action_collective_info.go   | 10 ++-
 client/rpcutilclient/action_daemon_stats.go   | 75 ++++++++++-------
 .../rpcutilclient/action_get_config_item.go   |  5 +-
 client/rpcutilclient/action_get_fact.go       |  5 +-
 client/rpcutilclient/action_get_facts.go      |  5 +-
 client/rpcutilclient/action_inventory.go      | 45 ++++++-----
 client/rpcutilclient/action_ping.go           |  5 +-
 client/scoutclient/action_checks.go           |  5 +-
 client/scoutclient/action_goss_validate.go    | 35 ++++----
 client/scoutclient/action_maintenance.go      | 15 ++--
 client/scoutclient/action_resume.go           | 15 ++--
 client/scoutclient/action_trigger.go          | 15 ++--
 generators/client/template_helpers.go         | 20 -----
 internal/fs/client/action.templ               | 14 ++--
 33 files changed, 351 insertions(+), 253 deletions(-)

diff --git a/client/aaa_signerclient/action_sign.go b/client/aaa_signerclient/action_sign.go
index 96fcccc..264bbaa 100644
--- a/client/aaa_signerclient/action_sign.go
+++ b/client/aaa_signerclient/action_sign.go
@@ -181,8 +181,9 @@ func (d *SignResult) EachOutput(h func(r *SignOutput)) {
 //
 // Description: The signed Secure Request
 func (d *SignOutput) SecureRequest() string {
-	val := d.reply["secure_request"]
+	// replies do not have to have all outputs
+	val, _ := d.reply["secure_request"].(string)
 
-	return val.(string)
+	return val
 
 }
diff --git a/client/choria_provisionclient/action_configure.go b/client/choria_provisionclient/action_configure.go
index 486b4ca..d424854 100644
--- a/client/choria_provisionclient/action_configure.go
+++ b/client/choria_provisionclient/action_configure.go
@@ -262,8 +262,9 @@ func (d *ConfigureRequester) Token(v string) *ConfigureRequester {
 //
 // Description: Status message from the Provisioner
 func (d *ConfigureOutput) Message() string {
-	val := d.reply["message"]
+	// replies do not have to have all outputs
+	val, _ := d.reply["message"].(string)
 
-	return val.(string)
+	return val
 
 }
diff --git a/client/choria_provisionclient/action_gen25519.go b/client/choria_provisionclient/action_gen25519.go
index 900bcd1..1be5797 100644
--- a/client/choria_provisionclient/action_gen25519.go
+++ b/client/choria_provisionclient/action_gen25519.go
@@ -181,9 +181,10 @@ func (d *Gen25519Result) EachOutput(h func(r *Gen25519Output)) {
 //
 // Description: The directory where server.key and server.pub is written to
 func (d *Gen25519Output) Directory() string {
-	val := d.reply["directory"]
+	// replies do not have to have all outputs
+	val, _ := d.reply["directory"].(string)
 
-	return val.(string)
+	return val
 
 }
 
@@ -191,9 +192,10 @@ func (d *Gen25519Output) Directory() string {
 //
 // Description: The ED255519 public key hex encoded
 func (d *Gen25519Output) PublicKey() string {
-	val := d.reply["public_key"]
+	// replies do not have to have all outputs
+	val, _ := d.reply["public_key"].(string)
 
-	return val.(string)
+	return val
 
 }
 
@@ -201,8 +203,9 @@ func (d *Gen25519Output) PublicKey() string {
 //
 // Description: The signature of the nonce made using the new private key, hex encoded
 func (d *Gen25519Output) Signature() string {
-	val := d.reply["signature"]
+	// replies do not have to have all outputs
+	val, _ := d.reply["signature"].(string)
 
-	return val.(string)
+	return val
 
 }
diff --git a/client/choria_provisionclient/action_gencsr.go b/client/choria_provisionclient/action_gencsr.go
index 0ba9b0f..a95450f 100644
--- a/client/choria_provisionclient/action_gencsr.go
+++ b/client/choria_provisionclient/action_gencsr.go
@@ -235,9 +235,10 @@ func (d *GencsrRequester) Cn(v string) *GencsrRequester {
 //
 // Description: PEM text block for the CSR
 func (d *GencsrOutput) Csr() string {
-	val := d.reply["csr"]
+	// replies do not have to have all outputs
+	val, _ := d.reply["csr"].(string)
 
-	return val.(string)
+	return val
 
 }
 
@@ -245,9 +246,10 @@ func (d *GencsrOutput) Csr() string {
 //
 // Description: PEM text block of the public key that made the CSR
 func (d *GencsrOutput) PublicKey() string {
-	val := d.reply["public_key"]
+	// replies do not have to have all outputs
+	val, _ := d.reply["public_key"].(string)
 
-	return val.(string)
+	return val
 
 }
 
@@ -255,8 +257,9 @@ func (d *GencsrOutput) PublicKey() string {
 //
 // Description: SSL directory as determined by the server
 func (d *GencsrOutput) Ssldir() string {
-	val := d.reply["ssldir"]
+	// replies do not have to have all outputs
+	val, _ := d.reply["ssldir"].(string)
 
-	return val.(string)
+	return val
 
 }
diff --git a/client/choria_provisionclient/action_jwt.go b/client/choria_provisionclient/action_jwt.go
index 39744bb..cce8911 100644
--- a/client/choria_provisionclient/action_jwt.go
+++ b/client/choria_provisionclient/action_jwt.go
@@ -181,9 +181,10 @@ func (d *JwtResult) EachOutput(h func(r *JwtOutput)) {
 //
 // Description: The ECDH public key for calculating shared secrets
 func (d *JwtOutput) EcdhPublic() string {
-	val := d.reply["ecdh_public"]
+	// replies do not have to have all outputs
+	val, _ := d.reply["ecdh_public"].(string)
 
-	return val.(string)
+	return val
 
 }
 
@@ -191,8 +192,9 @@ func (d *JwtOutput) EcdhPublic() string {
 //
 // Description: The contents of the JWT token
 func (d *JwtOutput) Jwt() string {
-	val := d.reply["jwt"]
+	// replies do not have to have all outputs
+	val, _ := d.reply["jwt"].(string)
 
-	return val.(string)
+	return val
 
 }
diff --git a/client/choria_provisionclient/action_release_update.go b/client/choria_provisionclient/action_release_update.go
index d507af2..06f9110 100644
--- a/client/choria_provisionclient/action_release_update.go
+++ b/client/choria_provisionclient/action_release_update.go
@@ -181,8 +181,9 @@ func (d *ReleaseUpdateResult) EachOutput(h func(r *ReleaseUpdateOutput)) {
 //
 // Description: Status message from the Provisioner
 func (d *ReleaseUpdateOutput) Message() string {
-	val := d.reply["message"]
+	// replies do not have to have all outputs
+	val, _ := d.reply["message"].(string)
 
-	return val.(string)
+	return val
 
 }
diff --git a/client/choria_provisionclient/action_reprovision.go b/client/choria_provisionclient/action_reprovision.go
index ceeec69..0112147 100644
--- a/client/choria_provisionclient/action_reprovision.go
+++ b/client/choria_provisionclient/action_reprovision.go
@@ -181,8 +181,9 @@ func (d *ReprovisionResult) EachOutput(h func(r *ReprovisionOutput)) {
 //
 // Description: Status message from the Provisioner
 func (d *ReprovisionOutput) Message() string {
-	val := d.reply["message"]
+	// replies do not have to have all outputs
+	val, _ := d.reply["message"].(string)
 
-	return val.(string)
+	return val
 
 }
diff --git a/client/choria_provisionclient/action_restart.go b/client/choria_provisionclient/action_restart.go
index 66dfb89..b3c2b07 100644
--- a/client/choria_provisionclient/action_restart.go
+++ b/client/choria_provisionclient/action_restart.go
@@ -190,8 +190,9 @@ func (d *RestartRequester) Splay(v float64) *RestartRequester {
 //
 // Description: Status message from the Provisioner
 func (d *RestartOutput) Message() string {
-	val := d.reply["message"]
+	// replies do not have to have all outputs
+	val, _ := d.reply["message"].(string)
 
-	return val.(string)
+	return val
 
 }
diff --git a/client/choria_provisionclient/action_shutdown.go b/client/choria_provisionclient/action_shutdown.go
index ab2fe3d..05ed05d 100644
--- a/client/choria_provisionclient/action_shutdown.go
+++ b/client/choria_provisionclient/action_shutdown.go
@@ -181,8 +181,9 @@ func (d *ShutdownResult) EachOutput(h func(r *ShutdownOutput)) {
 //
 // Description: Status message from the Provisioner
 func (d *ShutdownOutput) Message() string {
-	val := d.reply["message"]
+	// replies do not have to have all outputs
+	val, _ := d.reply["message"].(string)
 
-	return val.(string)
+	return val
 
 }
diff --git a/client/choria_registryclient/action_ddl.go b/client/choria_registryclient/action_ddl.go
index 40a6303..bbec5e2 100644
--- a/client/choria_registryclient/action_ddl.go
+++ b/client/choria_registryclient/action_ddl.go
@@ -190,9 +190,10 @@ func (d *DdlRequester) Format(v string) *DdlRequester {
 //
 // Description: The plugin DDL in the requested format
 func (d *DdlOutput) Ddl() string {
-	val := d.reply["ddl"]
+	// replies do not have to have all outputs
+	val, _ := d.reply["ddl"].(string)
 
-	return val.(string)
+	return val
 
 }
 
@@ -200,9 +201,10 @@ func (d *DdlOutput) Ddl() string {
 //
 // Description: The name of the plugin
 func (d *DdlOutput) Name() string {
-	val := d.reply["name"]
+	// replies do not have to have all outputs
+	val, _ := d.reply["name"].(string)
 
-	return val.(string)
+	return val
 
 }
 
@@ -210,9 +212,10 @@ func (d *DdlOutput) Name() string {
 //
 // Description: The type of plugin
 func (d *DdlOutput) PluginType() string {
-	val := d.reply["plugin_type"]
+	// replies do not have to have all outputs
+	val, _ := d.reply["plugin_type"].(string)
 
-	return val.(string)
+	return val
 
 }
 
@@ -220,8 +223,9 @@ func (d *DdlOutput) PluginType() string {
 //
 // Description: The version of the plugin
 func (d *DdlOutput) Version() string {
-	val := d.reply["version"]
+	// replies do not have to have all outputs
+	val, _ := d.reply["version"].(string)
 
-	return val.(string)
+	return val
 
 }
diff --git a/client/choria_registryclient/action_names.go b/client/choria_registryclient/action_names.go
index a6e25ac..d09b279 100644
--- a/client/choria_registryclient/action_names.go
+++ b/client/choria_registryclient/action_names.go
@@ -181,9 +181,10 @@ func (d *NamesResult) EachOutput(h func(r *NamesOutput)) {
 //
 // Description: The names of all known DDL files
 func (d *NamesOutput) Names() []any {
-	val := d.reply["names"]
+	// replies do not have to have all outputs
+	val, _ := d.reply["names"].([]any)
 
-	return val.([]any)
+	return val
 
 }
 
@@ -191,8 +192,9 @@ func (d *NamesOutput) Names() []any {
 //
 // Description: The type of plugin
 func (d *NamesOutput) PluginType() string {
-	val := d.reply["plugin_type"]
+	// replies do not have to have all outputs
+	val, _ := d.reply["plugin_type"].(string)
 
-	return val.(string)
+	return val
 
 }
diff --git a/client/choria_utilclient/action_info.go b/client/choria_utilclient/action_info.go
index 672d47e..c19ff46 100644
--- a/client/choria_utilclient/action_info.go
+++ b/client/choria_utilclient/action_info.go
@@ -181,9 +181,10 @@ func (d *InfoResult) EachOutput(h func(r *InfoOutput)) {
 //
 // Description: Choria version
 func (d *InfoOutput) ChoriaVersion() string {
-	val := d.reply["choria_version"]
+	// replies do not have to have all outputs
+	val, _ := d.reply["choria_version"].(string)
 
-	return val.(string)
+	return val
 
 }
 
@@ -191,9 +192,10 @@ func (d *InfoOutput) ChoriaVersion() string {
 //
 // Description: Middleware client library flavour
 func (d *InfoOutput) ClientFlavour() string {
-	val := d.reply["client_flavour"]
+	// replies do not have to have all outputs
+	val, _ := d.reply["client_flavour"].(string)
 
-	return val.(string)
+	return val
 
 }
 
@@ -201,9 +203,10 @@ func (d *InfoOutput) ClientFlavour() string {
 //
 // Description: Active Middleware client options
 func (d *InfoOutput) ClientOptions() map[string]any {
-	val := d.reply["client_options"]
+	// replies do not have to have all outputs
+	val, _ := d.reply["client_options"].(map[string]any)
 
-	return val.(map[string]any)
+	return val
 
 }
 
@@ -211,9 +214,10 @@ func (d *InfoOutput) ClientOptions() map[string]any {
 //
 // Description: Middleware client statistics
 func (d *InfoOutput) ClientStats() map[string]any {
-	val := d.reply["client_stats"]
+	// replies do not have to have all outputs
+	val, _ := d.reply["client_stats"].(map[string]any)
 
-	return val.(map[string]any)
+	return val
 
 }
 
@@ -221,9 +225,10 @@ func (d *InfoOutput) ClientStats() map[string]any {
 //
 // Description: Middleware client library version
 func (d *InfoOutput) ClientVersion() string {
-	val := d.reply["client_version"]
+	// replies do not have to have all outputs
+	val, _ := d.reply["client_version"].(string)
 
-	return val.(string)
+	return val
 
 }
 
@@ -231,9 +236,10 @@ func (d *InfoOutput) ClientVersion() string {
 //
 // Description: Connected middleware server
 func (d *InfoOutput) ConnectedServer() string {
-	val := d.reply["connected_server"]
+	// replies do not have to have all outputs
+	val, _ := d.reply["connected_server"].(string)
 
-	return val.(string)
+	return val
 
 }
 
@@ -241,9 +247,10 @@ func (d *InfoOutput) ConnectedServer() string {
 //
 // Description: Connector plugin
 func (d *InfoOutput) Connector() string {
-	val := d.reply["connector"]
+	// replies do not have to have all outputs
+	val, _ := d.reply["connector"].(string)
 
-	return val.(string)
+	return val
 
 }
 
@@ -251,9 +258,10 @@ func (d *InfoOutput) Connector() string {
 //
 // Description: If the connector is running with TLS security enabled
 func (d *InfoOutput) ConnectorTls() bool {
-	val := d.reply["connector_tls"]
+	// replies do not have to have all outputs
+	val, _ := d.reply["connector_tls"].(bool)
 
-	return val.(bool)
+	return val
 
 }
 
@@ -261,9 +269,10 @@ func (d *InfoOutput) ConnectorTls() bool {
 //
 // Description: Command used for Facter
 func (d *InfoOutput) FacterCommand() string {
-	val := d.reply["facter_command"]
+	// replies do not have to have all outputs
+	val, _ := d.reply["facter_command"].(string)
 
-	return val.(string)
+	return val
 
 }
 
@@ -271,9 +280,10 @@ func (d *InfoOutput) FacterCommand() string {
 //
 // Description: Facter domain
 func (d *InfoOutput) FacterDomain() string {
-	val := d.reply["facter_domain"]
+	// replies do not have to have all outputs
+	val, _ := d.reply["facter_domain"].(string)
 
-	return val.(string)
+	return val
 
 }
 
@@ -281,9 +291,10 @@ func (d *InfoOutput) FacterDomain() string {
 //
 // Description: Middleware Servers configured or discovered
 func (d *InfoOutput) MiddlewareServers() []any {
-	val := d.reply["middleware_servers"]
+	// replies do not have to have all outputs
+	val, _ := d.reply["middleware_servers"].([]any)
 
-	return val.([]any)
+	return val
 
 }
 
@@ -291,9 +302,10 @@ func (d *InfoOutput) MiddlewareServers() []any {
 //
 // Description: Active OS PATH
 func (d *InfoOutput) Path() string {
-	val := d.reply["path"]
+	// replies do not have to have all outputs
+	val, _ := d.reply["path"].(string)
 
-	return val.(string)
+	return val
 
 }
 
@@ -301,9 +313,10 @@ func (d *InfoOutput) Path() string {
 //
 // Description: If the protocol is running with PKI security enabled
 func (d *InfoOutput) SecureProtocol() bool {
-	val := d.reply["secure_protocol"]
+	// replies do not have to have all outputs
+	val, _ := d.reply["secure_protocol"].(bool)
 
-	return val.(bool)
+	return val
 
 }
 
@@ -311,9 +324,10 @@ func (d *InfoOutput) SecureProtocol() bool {
 //
 // Description: Security Provider plugin
 func (d *InfoOutput) Security() string {
-	val := d.reply["security"]
+	// replies do not have to have all outputs
+	val, _ := d.reply["security"].(string)
 
-	return val.(string)
+	return val
 
 }
 
@@ -321,9 +335,10 @@ func (d *InfoOutput) Security() string {
 //
 // Description: Configured SRV domain
 func (d *InfoOutput) SrvDomain() string {
-	val := d.reply["srv_domain"]
+	// replies do not have to have all outputs
+	val, _ := d.reply["srv_domain"].(string)
 
-	return val.(string)
+	return val
 
 }
 
@@ -331,8 +346,9 @@ func (d *InfoOutput) SrvDomain() string {
 //
 // Description: Indicates if SRV records are considered
 func (d *InfoOutput) UsingSrv() bool {
-	val := d.reply["using_srv"]
+	// replies do not have to have all outputs
+	val, _ := d.reply["using_srv"].(bool)
 
-	return val.(bool)
+	return val
 
 }
diff --git a/client/choria_utilclient/action_machine_state.go b/client/choria_utilclient/action_machine_state.go
index f0676fc..6c3ba10 100644
--- a/client/choria_utilclient/action_machine_state.go
+++ b/client/choria_utilclient/action_machine_state.go
@@ -208,9 +208,10 @@ func (d *MachineStateRequester) Path(v string) *MachineStateRequester {
 //
 // Description: The list of available transitions this autonomous agent can make
 func (d *MachineStateOutput) AvailableTransitions() []any {
-	val := d.reply["available_transitions"]
+	// replies do not have to have all outputs
+	val, _ := d.reply["available_transitions"].([]any)
 
-	return val.([]any)
+	return val
 
 }
 
@@ -232,9 +233,10 @@ func (d *MachineStateOutput) CurrentState() any {
 //
 // Description: The unique running ID of the autonomous agent
 func (d *MachineStateOutput) Id() string {
-	val := d.reply["id"]
+	// replies do not have to have all outputs
+	val, _ := d.reply["id"].(string)
 
-	return val.(string)
+	return val
 
 }
 
@@ -242,9 +244,10 @@ func (d *MachineStateOutput) Id() string {
 //
 // Description: The name of the autonomous agent
 func (d *MachineStateOutput) Name() string {
-	val := d.reply["name"]
+	// replies do not have to have all outputs
+	val, _ := d.reply["name"].(string)
 
-	return val.(string)
+	return val
 
 }
 
@@ -252,9 +255,10 @@ func (d *MachineStateOutput) Name() string {
 //
 // Description: The location on disk where the autonomous agent is stored
 func (d *MachineStateOutput) Path() string {
-	val := d.reply["path"]
+	// replies do not have to have all outputs
+	val, _ := d.reply["path"].(string)
 
-	return val.(string)
+	return val
 
 }
 
@@ -262,9 +266,10 @@ func (d *MachineStateOutput) Path() string {
 //
 // Description: True when this autonomous agent represents a Choria Scout Check
 func (d *MachineStateOutput) Scout() bool {
-	val := d.reply["scout"]
+	// replies do not have to have all outputs
+	val, _ := d.reply["scout"].(bool)
 
-	return val.(bool)
+	return val
 
 }
 
@@ -272,9 +277,10 @@ func (d *MachineStateOutput) Scout() bool {
 //
 // Description: The time the autonomous agent was started in unix seconds
 func (d *MachineStateOutput) StartTime() string {
-	val := d.reply["start_time"]
+	// replies do not have to have all outputs
+	val, _ := d.reply["start_time"].(string)
 
-	return val.(string)
+	return val
 
 }
 
@@ -282,9 +288,10 @@ func (d *MachineStateOutput) StartTime() string {
 //
 // Description: The current state the agent is in
 func (d *MachineStateOutput) State() string {
-	val := d.reply["state"]
+	// replies do not have to have all outputs
+	val, _ := d.reply["state"].(string)
 
-	return val.(string)
+	return val
 
 }
 
@@ -292,8 +299,9 @@ func (d *MachineStateOutput) State() string {
 //
 // Description: The version of the autonomous agent
 func (d *MachineStateOutput) Version() string {
-	val := d.reply["version"]
+	// replies do not have to have all outputs
+	val, _ := d.reply["version"].(string)
 
-	return val.(string)
+	return val
 
 }
diff --git a/client/choria_utilclient/action_machine_states.go b/client/choria_utilclient/action_machine_states.go
index 3a9689d..72a0975 100644
--- a/client/choria_utilclient/action_machine_states.go
+++ b/client/choria_utilclient/action_machine_states.go
@@ -181,9 +181,10 @@ func (d *MachineStatesResult) EachOutput(h func(r *MachineStatesOutput)) {
 //
 // Description: List of running machine IDs
 func (d *MachineStatesOutput) MachineIds() []any {
-	val := d.reply["machine_ids"]
+	// replies do not have to have all outputs
+	val, _ := d.reply["machine_ids"].([]any)
 
-	return val.([]any)
+	return val
 
 }
 
@@ -191,9 +192,10 @@ func (d *MachineStatesOutput) MachineIds() []any {
 //
 // Description: List of running machine names
 func (d *MachineStatesOutput) MachineNames() []any {
-	val := d.reply["machine_names"]
+	// replies do not have to have all outputs
+	val, _ := d.reply["machine_names"].([]any)
 
-	return val.([]any)
+	return val
 
 }
 
@@ -201,8 +203,9 @@ func (d *MachineStatesOutput) MachineNames() []any {
 //
 // Description: Hash map of machine statusses indexed by machine ID
 func (d *MachineStatesOutput) States() map[string]any {
-	val := d.reply["states"]
+	// replies do not have to have all outputs
+	val, _ := d.reply["states"].(map[string]any)
 
-	return val.(map[string]any)
+	return val
 
 }
diff --git a/client/choria_utilclient/action_machine_transition.go b/client/choria_utilclient/action_machine_transition.go
index e2513a6..d7dcb84 100644
--- a/client/choria_utilclient/action_machine_transition.go
+++ b/client/choria_utilclient/action_machine_transition.go
@@ -217,8 +217,9 @@ func (d *MachineTransitionRequester) Version(v string) *MachineTransitionRequest
 //
 // Description: Indicates if the transition was successfully accepted
 func (d *MachineTransitionOutput) Success() bool {
-	val := d.reply["success"]
+	// replies do not have to have all outputs
+	val, _ := d.reply["success"].(bool)
 
-	return val.(bool)
+	return val
 
 }
diff --git a/client/executorclient/action_list.go b/client/executorclient/action_list.go
index 2cf592a..e0376fa 100644
--- a/client/executorclient/action_list.go
+++ b/client/executorclient/action_list.go
@@ -271,8 +271,9 @@ func (d *ListRequester) Since(v int64) *ListRequester {
 //
 // Description: List of matched jobs
 func (d *ListOutput) Jobs() map[string]any {
-	val := d.reply["jobs"]
+	// replies do not have to have all outputs
+	val, _ := d.reply["jobs"].(map[string]any)
 
-	return val.(map[string]any)
+	return val
 
 }
diff --git a/client/executorclient/action_signal.go b/client/executorclient/action_signal.go
index aa6f2a7..5144adc 100644
--- a/client/executorclient/action_signal.go
+++ b/client/executorclient/action_signal.go
@@ -181,9 +181,10 @@ func (d *SignalResult) EachOutput(h func(r *SignalOutput)) {
 //
 // Description: The PID that was signaled
 func (d *SignalOutput) Pid() int64 {
-	val := d.reply["pid"]
+	// numbers are floats in JSON, and replies do not have to have all outputs
+	val, _ := d.reply["pid"].(float64)
 
-	return val.(int64)
+	return int64(val)
 
 }
 
@@ -191,8 +192,9 @@ func (d *SignalOutput) Pid() int64 {
 //
 // Description: If the process was running after signaling
 func (d *SignalOutput) Running() bool {
-	val := d.reply["running"]
+	// replies do not have to have all outputs
+	val, _ := d.reply["running"].(bool)
 
-	return val.(bool)
+	return val
 
 }
diff --git a/client/executorclient/action_status.go b/client/executorclient/action_status.go
index e9c5be5..474a494 100644
--- a/client/executorclient/action_status.go
+++ b/client/executorclient/action_status.go
@@ -181,9 +181,10 @@ func (d *StatusResult) EachOutput(h func(r *StatusOutput)) {
 //
 // Description: The RPC Action that started the process
 func (d *StatusOutput) Action() string {
-	val := d.reply["action"]
+	// replies do not have to have all outputs
+	val, _ := d.reply["action"].(string)
 
-	return val.(string)
+	return val
 
 }
 
@@ -191,9 +192,10 @@ func (d *StatusOutput) Action() string {
 //
 // Description: The RPC Agent that started the process
 func (d *StatusOutput) Agent() string {
-	val := d.reply["agent"]
+	// replies do not have to have all outputs
+	val, _ := d.reply["agent"].(string)
 
-	return val.(string)
+	return val
 
 }
 
@@ -201,9 +203,10 @@ func (d *StatusOutput) Agent() string {
 //
 // Description: The command arguments, if the caller has access
 func (d *StatusOutput) Args() string {
-	val := d.reply["args"]
+	// replies do not have to have all outputs
+	val, _ := d.reply["args"].(string)
 
-	return val.(string)
+	return val
 
 }
 
@@ -211,9 +214,10 @@ func (d *StatusOutput) Args() string {
 //
 // Description: The Caller ID who started the process
 func (d *StatusOutput) Caller() string {
-	val := d.reply["caller"]
+	// replies do not have to have all outputs
+	val, _ := d.reply["caller"].(string)
 
-	return val.(string)
+	return val
 
 }
 
@@ -221,9 +225,10 @@ func (d *StatusOutput) Caller() string {
 //
 // Description: The command being executed, if the caller has access
 func (d *StatusOutput) Command() string {
-	val := d.reply["command"]
+	// replies do not have to have all outputs
+	val, _ := d.reply["command"].(string)
 
-	return val.(string)
+	return val
 
 }
 
@@ -231,9 +236,10 @@ func (d *StatusOutput) Command() string {
 //
 // Description: The exit code the process terminated with
 func (d *StatusOutput) ExitCode() int64 {
-	val := d.reply["exit_code"]
+	// numbers are floats in JSON, and replies do not have to have all outputs
+	val, _ := d.reply["exit_code"].(float64)
 
-	return val.(int64)
+	return int64(val)
 
 }
 
@@ -241,9 +247,10 @@ func (d *StatusOutput) ExitCode() int64 {
 //
 // Description: If the process failed, the reason for th failure
 func (d *StatusOutput) ExitReason() string {
-	val := d.reply["exit_reason"]
+	// replies do not have to have all outputs
+	val, _ := d.reply["exit_reason"].(string)
 
-	return val.(string)
+	return val
 
 }
 
@@ -251,9 +258,10 @@ func (d *StatusOutput) ExitReason() string {
 //
 // Description: The OS Process ID
 func (d *StatusOutput) Pid() int64 {
-	val := d.reply["pid"]
+	// numbers are floats in JSON, and replies do not have to have all outputs
+	val, _ := d.reply["pid"].(float64)
 
-	return val.(int64)
+	return int64(val)
 
 }
 
@@ -261,9 +269,10 @@ func (d *StatusOutput) Pid() int64 {
 //
 // Description: The Request ID that started the process
 func (d *StatusOutput) Requestid() string {
-	val := d.reply["requestid"]
+	// replies do not have to have all outputs
+	val, _ := d.reply["requestid"].(string)
 
-	return val.(string)
+	return val
 
 }
 
@@ -271,9 +280,10 @@ func (d *StatusOutput) Requestid() string {
 //
 // Description: Indicates if the process is still running
 func (d *StatusOutput) Running() bool {
-	val := d.reply["running"]
+	// replies do not have to have all outputs
+	val, _ := d.reply["running"].(bool)
 
-	return val.(bool)
+	return val
 
 }
 
@@ -281,9 +291,10 @@ func (d *StatusOutput) Running() bool {
 //
 // Description: Time that the process started
 func (d *StatusOutput) StartTime() string {
-	val := d.reply["start_time"]
+	// replies do not have to have all outputs
+	val, _ := d.reply["start_time"].(string)
 
-	return val.(string)
+	return val
 
 }
 
@@ -291,9 +302,10 @@ func (d *StatusOutput) StartTime() string {
 //
 // Description: Indicates if the process was started
 func (d *StatusOutput) Started() bool {
-	val := d.reply["started"]
+	// replies do not have to have all outputs
+	val, _ := d.reply["started"].(bool)
 
-	return val.(bool)
+	return val
 
 }
 
@@ -301,9 +313,10 @@ func (d *StatusOutput) Started() bool {
 //
 // Description: The number of bytes of STDERR output available
 func (d *StatusOutput) StderrBytes() int64 {
-	val := d.reply["stderr_bytes"]
+	// numbers are floats in JSON, and replies do not have to have all outputs
+	val, _ := d.reply["stderr_bytes"].(float64)
 
-	return val.(int64)
+	return int64(val)
 
 }
 
@@ -311,9 +324,10 @@ func (d *StatusOutput) StderrBytes() int64 {
 //
 // Description: The number of bytes of STDOUT output available
 func (d *StatusOutput) StdoutBytes() int64 {
-	val := d.reply["stdout_bytes"]
+	// numbers are floats in JSON, and replies do not have to have all outputs
+	val, _ := d.reply["stdout_bytes"].(float64)
 
-	return val.(int64)
+	return int64(val)
 
 }
 
@@ -321,8 +335,9 @@ func (d *StatusOutput) StdoutBytes() int64 {
 //
 // Description: Time that the process terminated
 func (d *StatusOutput) TerminateTime() string {
-	val := d.reply["terminate_time"]
+	// replies do not have to have all outputs
+	val, _ := d.reply["terminate_time"].(string)
 
-	return val.(string)
+	return val
 
 }
diff --git a/client/rpcutilclient/action_agent_inventory.go b/client/rpcutilclient/action_agent_inventory.go
index 20ddc5b..30fd806 100644
--- a/client/rpcutilclient/action_agent_inventory.go
+++ b/client/rpcutilclient/action_agent_inventory.go
@@ -181,8 +181,9 @@ func (d *AgentInventoryResult) EachOutput(h func(r *AgentInventoryOutput)) {
 //
 // Description: List of agents on the server
 func (d *AgentInventoryOutput) Agents() []any {
-	val := d.reply["agents"]
+	// replies do not have to have all outputs
+	val, _ := d.reply["agents"].([]any)
 
-	return val.([]any)
+	return val
 
 }
diff --git a/client/rpcutilclient/action_collective_info.go b/client/rpcutilclient/action_collective_info.go
index 32f2694..45741b5 100644
--- a/client/rpcutilclient/action_collective_info.go
+++ b/client/rpcutilclient/action_collective_info.go
@@ -181,9 +181,10 @@ func (d *CollectiveInfoResult) EachOutput(h func(r *CollectiveInfoOutput)) {
 //
 // Description: All Collectives
 func (d *CollectiveInfoOutput) Collectives() []any {
-	val := d.reply["collectives"]
+	// replies do not have to have all outputs
+	val, _ := d.reply["collectives"].([]any)
 
-	return val.([]any)
+	return val
 
 }
 
@@ -191,8 +192,9 @@ func (d *CollectiveInfoOutput) Collectives() []any {
 //
 // Description: The main Collective
 func (d *CollectiveInfoOutput) MainCollective() string {
-	val := d.reply["main_collective"]
+	// replies do not have to have all outputs
+	val, _ := d.reply["main_collective"].(string)
 
-	return val.(string)
+	return val
 
 }
diff --git a/client/rpcutilclient/action_daemon_stats.go b/client/rpcutilclient/action_daemon_stats.go
index 8dcf96f..d20f8d2 100644
--- a/client/rpcutilclient/action_daemon_stats.go
+++ b/client/rpcutilclient/action_daemon_stats.go
@@ -181,9 +181,10 @@ func (d *DaemonStatsResult) EachOutput(h func(r *DaemonStatsOutput)) {
 //
 // Description: List of agents loaded
 func (d *DaemonStatsOutput) Agents() []any {
-	val := d.reply["agents"]
+	// replies do not have to have all outputs
+	val, _ := d.reply["agents"].([]any)
 
-	return val.([]any)
+	return val
 
 }
 
@@ -191,9 +192,10 @@ func (d *DaemonStatsOutput) Agents() []any {
 //
 // Description: Config file used to start the daemon
 func (d *DaemonStatsOutput) Configfile() string {
-	val := d.reply["configfile"]
+	// replies do not have to have all outputs
+	val, _ := d.reply["configfile"].(string)
 
-	return val.(string)
+	return val
 
 }
 
@@ -201,9 +203,10 @@ func (d *DaemonStatsOutput) Configfile() string {
 //
 // Description: The number of lifecycle events that was published
 func (d *DaemonStatsOutput) Events() int64 {
-	val := d.reply["events"]
+	// numbers are floats in JSON, and replies do not have to have all outputs
+	val, _ := d.reply["events"].(float64)
 
-	return val.(int64)
+	return int64(val)
 
 }
 
@@ -211,9 +214,10 @@ func (d *DaemonStatsOutput) Events() int64 {
 //
 // Description: Count of message that didn't pass filter checks
 func (d *DaemonStatsOutput) Filtered() int64 {
-	val := d.reply["filtered"]
+	// numbers are floats in JSON, and replies do not have to have all outputs
+	val, _ := d.reply["filtered"].(float64)
 
-	return val.(int64)
+	return int64(val)
 
 }
 
@@ -221,9 +225,10 @@ func (d *DaemonStatsOutput) Filtered() int64 {
 //
 // Description: Count of messages that passed filter checks
 func (d *DaemonStatsOutput) Passed() int64 {
-	val := d.reply["passed"]
+	// numbers are floats in JSON, and replies do not have to have all outputs
+	val, _ := d.reply["passed"].(float64)
 
-	return val.(int64)
+	return int64(val)
 
 }
 
@@ -231,9 +236,10 @@ func (d *DaemonStatsOutput) Passed() int64 {
 //
 // Description: Process ID of the Choria Server
 func (d *DaemonStatsOutput) Pid() int64 {
-	val := d.reply["pid"]
+	// numbers are floats in JSON, and replies do not have to have all outputs
+	val, _ := d.reply["pid"].(float64)
 
-	return val.(int64)
+	return int64(val)
 
 }
 
@@ -241,9 +247,10 @@ func (d *DaemonStatsOutput) Pid() int64 {
 //
 // Description: Count of replies sent back to clients
 func (d *DaemonStatsOutput) Replies() int64 {
-	val := d.reply["replies"]
+	// numbers are floats in JSON, and replies do not have to have all outputs
+	val, _ := d.reply["replies"].(float64)
 
-	return val.(int64)
+	return int64(val)
 
 }
 
@@ -251,9 +258,10 @@ func (d *DaemonStatsOutput) Replies() int64 {
 //
 // Description: Time the Choria Server started in unix seconds
 func (d *DaemonStatsOutput) Starttime() int64 {
-	val := d.reply["starttime"]
+	// numbers are floats in JSON, and replies do not have to have all outputs
+	val, _ := d.reply["starttime"].(float64)
 
-	return val.(int64)
+	return int64(val)
 
 }
 
@@ -261,9 +269,10 @@ func (d *DaemonStatsOutput) Starttime() int64 {
 //
 // Description: List of threads active in the Choria Server
 func (d *DaemonStatsOutput) Threads() []any {
-	val := d.reply["threads"]
+	// replies do not have to have all outputs
+	val, _ := d.reply["threads"].([]any)
 
-	return val.([]any)
+	return val
 
 }
 
@@ -271,9 +280,10 @@ func (d *DaemonStatsOutput) Threads() []any {
 //
 // Description: Processor time consumed by the Choria Server
 func (d *DaemonStatsOutput) Times() map[string]any {
-	val := d.reply["times"]
+	// replies do not have to have all outputs
+	val, _ := d.reply["times"].(map[string]any)
 
-	return val.(map[string]any)
+	return val
 
 }
 
@@ -281,9 +291,10 @@ func (d *DaemonStatsOutput) Times() map[string]any {
 //
 // Description: Count of messages received by the Choria Server
 func (d *DaemonStatsOutput) Total() int64 {
-	val := d.reply["total"]
+	// numbers are floats in JSON, and replies do not have to have all outputs
+	val, _ := d.reply["total"].(float64)
 
-	return val.(int64)
+	return int64(val)
 
 }
 
@@ -291,9 +302,10 @@ func (d *DaemonStatsOutput) Total() int64 {
 //
 // Description: Count of messages that did pass TTL checks
 func (d *DaemonStatsOutput) Ttlexpired() int64 {
-	val := d.reply["ttlexpired"]
+	// numbers are floats in JSON, and replies do not have to have all outputs
+	val, _ := d.reply["ttlexpired"].(float64)
 
-	return val.(int64)
+	return int64(val)
 
 }
 
@@ -301,9 +313,10 @@ func (d *DaemonStatsOutput) Ttlexpired() int64 {
 //
 // Description: Count of messages that failed security validation
 func (d *DaemonStatsOutput) Unvalidated() int64 {
-	val := d.reply["unvalidated"]
+	// numbers are floats in JSON, and replies do not have to have all outputs
+	val, _ := d.reply["unvalidated"].(float64)
 
-	return val.(int64)
+	return int64(val)
 
 }
 
@@ -311,9 +324,10 @@ func (d *DaemonStatsOutput) Unvalidated() int64 {
 //
 // Description: Count of messages that passed security validation
 func (d *DaemonStatsOutput) Validated() int64 {
-	val := d.reply["validated"]
+	// numbers are floats in JSON, and replies do not have to have all outputs
+	val, _ := d.reply["validated"].(float64)
 
-	return val.(int64)
+	return int64(val)
 
 }
 
@@ -321,8 +335,9 @@ func (d *DaemonStatsOutput) Validated() int64 {
 //
 // Description: Choria Server Version
 func (d *DaemonStatsOutput) Version() string {
-	val := d.reply["version"]
+	// replies do not have to have all outputs
+	val, _ := d.reply["version"].(string)
 
-	return val.(string)
+	return val
 
 }
diff --git a/client/rpcutilclient/action_get_config_item.go b/client/rpcutilclient/action_get_config_item.go
index 3cecac9..8bc9a35 100644
--- a/client/rpcutilclient/action_get_config_item.go
+++ b/client/rpcutilclient/action_get_config_item.go
@@ -181,9 +181,10 @@ func (d *GetConfigItemResult) EachOutput(h func(r *GetConfigItemOutput)) {
 //
 // Description: The config property being retrieved
 func (d *GetConfigItemOutput) Item() string {
-	val := d.reply["item"]
+	// replies do not have to have all outputs
+	val, _ := d.reply["item"].(string)
 
-	return val.(string)
+	return val
 
 }
 
diff --git a/client/rpcutilclient/action_get_fact.go b/client/rpcutilclient/action_get_fact.go
index f0c399e..ffdc7de 100644
--- a/client/rpcutilclient/action_get_fact.go
+++ b/client/rpcutilclient/action_get_fact.go
@@ -181,9 +181,10 @@ func (d *GetFactResult) EachOutput(h func(r *GetFactOutput)) {
 //
 // Description: The name of the fact being returned
 func (d *GetFactOutput) Fact() string {
-	val := d.reply["fact"]
+	// replies do not have to have all outputs
+	val, _ := d.reply["fact"].(string)
 
-	return val.(string)
+	return val
 
 }
 
diff --git a/client/rpcutilclient/action_get_facts.go b/client/rpcutilclient/action_get_facts.go
index da55751..1f47a0c 100644
--- a/client/rpcutilclient/action_get_facts.go
+++ b/client/rpcutilclient/action_get_facts.go
@@ -181,8 +181,9 @@ func (d *GetFactsResult) EachOutput(h func(r *GetFactsOutput)) {
 //
 // Description: List of values of the facts
 func (d *GetFactsOutput) Values() map[string]any {
-	val := d.reply["values"]
+	// replies do not have to have all outputs
+	val, _ := d.reply["values"].(map[string]any)
 
-	return val.(map[string]any)
+	return val
 
 }
diff --git a/client/rpcutilclient/action_inventory.go b/client/rpcutilclient/action_inventory.go
index 4f05f63..d77fb59 100644
--- a/client/rpcutilclient/action_inventory.go
+++ b/client/rpcutilclient/action_inventory.go
@@ -181,9 +181,10 @@ func (d *InventoryResult) EachOutput(h func(r *InventoryOutput)) {
 //
 // Description: List of agent names
 func (d *InventoryOutput) Agents() []any {
-	val := d.reply["agents"]
+	// replies do not have to have all outputs
+	val, _ := d.reply["agents"].([]any)
 
-	return val.([]any)
+	return val
 
 }
 
@@ -191,9 +192,10 @@ func (d *InventoryOutput) Agents() []any {
 //
 // Description: List of classes on the system
 func (d *InventoryOutput) Classes() []any {
-	val := d.reply["classes"]
+	// replies do not have to have all outputs
+	val, _ := d.reply["classes"].([]any)
 
-	return val.([]any)
+	return val
 
 }
 
@@ -201,9 +203,10 @@ func (d *InventoryOutput) Classes() []any {
 //
 // Description: All Collectives
 func (d *InventoryOutput) Collectives() []any {
-	val := d.reply["collectives"]
+	// replies do not have to have all outputs
+	val, _ := d.reply["collectives"].([]any)
 
-	return val.([]any)
+	return val
 
 }
 
@@ -211,9 +214,10 @@ func (d *InventoryOutput) Collectives() []any {
 //
 // Description: List of data plugin names
 func (d *InventoryOutput) DataPlugins() []any {
-	val := d.reply["data_plugins"]
+	// replies do not have to have all outputs
+	val, _ := d.reply["data_plugins"].([]any)
 
-	return val.([]any)
+	return val
 
 }
 
@@ -221,9 +225,10 @@ func (d *InventoryOutput) DataPlugins() []any {
 //
 // Description: List of facts and values
 func (d *InventoryOutput) Facts() map[string]any {
-	val := d.reply["facts"]
+	// replies do not have to have all outputs
+	val, _ := d.reply["facts"].(map[string]any)
 
-	return val.(map[string]any)
+	return val
 
 }
 
@@ -231,9 +236,10 @@ func (d *InventoryOutput) Facts() map[string]any {
 //
 // Description: Autonomous Agents
 func (d *InventoryOutput) Machines() map[string]any {
-	val := d.reply["machines"]
+	// replies do not have to have all outputs
+	val, _ := d.reply["machines"].(map[string]any)
 
-	return val.(map[string]any)
+	return val
 
 }
 
@@ -241,9 +247,10 @@ func (d *InventoryOutput) Machines() map[string]any {
 //
 // Description: The main Collective
 func (d *InventoryOutput) MainCollective() string {
-	val := d.reply["main_collective"]
+	// replies do not have to have all outputs
+	val, _ := d.reply["main_collective"].(string)
 
-	return val.(string)
+	return val
 
 }
 
@@ -251,9 +258,10 @@ func (d *InventoryOutput) MainCollective() string {
 //
 // Description: Indicates if the server supports upgrades
 func (d *InventoryOutput) Upgradable() bool {
-	val := d.reply["upgradable"]
+	// replies do not have to have all outputs
+	val, _ := d.reply["upgradable"].(bool)
 
-	return val.(bool)
+	return val
 
 }
 
@@ -261,8 +269,9 @@ func (d *InventoryOutput) Upgradable() bool {
 //
 // Description: Choria Server Version
 func (d *InventoryOutput) Version() string {
-	val := d.reply["version"]
+	// replies do not have to have all outputs
+	val, _ := d.reply["version"].(string)
 
-	return val.(string)
+	return val
 
 }
diff --git a/client/rpcutilclient/action_ping.go b/client/rpcutilclient/action_ping.go
index ed6b420..db8d3f6 100644
--- a/client/rpcutilclient/action_ping.go
+++ b/client/rpcutilclient/action_ping.go
@@ -181,8 +181,9 @@ func (d *PingResult) EachOutput(h func(r *PingOutput)) {
 //
 // Description: The local Unix timestamp
 func (d *PingOutput) Pong() float64 {
-	val := d.reply["pong"]
+	// replies do not have to have all outputs
+	val, _ := d.reply["pong"].(float64)
 
-	return val.(float64)
+	return val
 
 }
diff --git a/client/scoutclient/action_checks.go b/client/scoutclient/action_checks.go
index 71e9a33..7403e4c 100644
--- a/client/scoutclient/action_checks.go
+++ b/client/scoutclient/action_checks.go
@@ -181,8 +181,9 @@ func (d *ChecksResult) EachOutput(h func(r *ChecksOutput)) {
 //
 // Description: Details about each check
 func (d *ChecksOutput) Checks() []any {
-	val := d.reply["checks"]
+	// replies do not have to have all outputs
+	val, _ := d.reply["checks"].([]any)
 
-	return val.([]any)
+	return val
 
 }
diff --git a/client/scoutclient/action_goss_validate.go b/client/scoutclient/action_goss_validate.go
index b037180..f1bc3c1 100644
--- a/client/scoutclient/action_goss_validate.go
+++ b/client/scoutclient/action_goss_validate.go
@@ -217,9 +217,10 @@ func (d *GossValidateRequester) YamlVars(v string) *GossValidateRequester {
 //
 // Description: The number of tests that failed
 func (d *GossValidateOutput) Failures() int64 {
-	val := d.reply["failures"]
+	// numbers are floats in JSON, and replies do not have to have all outputs
+	val, _ := d.reply["failures"].(float64)
 
-	return val.(int64)
+	return int64(val)
 
 }
 
@@ -227,9 +228,10 @@ func (d *GossValidateOutput) Failures() int64 {
 //
 // Description: The full test results
 func (d *GossValidateOutput) Results() []any {
-	val := d.reply["results"]
+	// replies do not have to have all outputs
+	val, _ := d.reply["results"].([]any)
 
-	return val.([]any)
+	return val
 
 }
 
@@ -237,9 +239,10 @@ func (d *GossValidateOutput) Results() []any {
 //
 // Description: The time it took to run the tests, in seconds
 func (d *GossValidateOutput) Runtime() int64 {
-	val := d.reply["runtime"]
+	// numbers are floats in JSON, and replies do not have to have all outputs
+	val, _ := d.reply["runtime"].(float64)
 
-	return val.(int64)
+	return int64(val)
 
 }
 
@@ -247,9 +250,10 @@ func (d *GossValidateOutput) Runtime() int64 {
 //
 // Description: Indicates how many tests were skipped
 func (d *GossValidateOutput) Skipped() int64 {
-	val := d.reply["skipped"]
+	// numbers are floats in JSON, and replies do not have to have all outputs
+	val, _ := d.reply["skipped"].(float64)
 
-	return val.(int64)
+	return int64(val)
 
 }
 
@@ -257,9 +261,10 @@ func (d *GossValidateOutput) Skipped() int64 {
 //
 // Description: Indicates how many tests passed
 func (d *GossValidateOutput) Success() int64 {
-	val := d.reply["success"]
+	// numbers are floats in JSON, and replies do not have to have all outputs
+	val, _ := d.reply["success"].(float64)
 
-	return val.(int64)
+	return int64(val)
 
 }
 
@@ -267,9 +272,10 @@ func (d *GossValidateOutput) Success() int64 {
 //
 // Description: A human friendly test result
 func (d *GossValidateOutput) Summary() string {
-	val := d.reply["summary"]
+	// replies do not have to have all outputs
+	val, _ := d.reply["summary"].(string)
 
-	return val.(string)
+	return val
 
 }
 
@@ -277,8 +283,9 @@ func (d *GossValidateOutput) Summary() string {
 //
 // Description: The number of tests that were run
 func (d *GossValidateOutput) Tests() int64 {
-	val := d.reply["tests"]
+	// numbers are floats in JSON, and replies do not have to have all outputs
+	val, _ := d.reply["tests"].(float64)
 
-	return val.(int64)
+	return int64(val)
 
 }
diff --git a/client/scoutclient/action_maintenance.go b/client/scoutclient/action_maintenance.go
index 69c7ec0..9ddc445 100644
--- a/client/scoutclient/action_maintenance.go
+++ b/client/scoutclient/action_maintenance.go
@@ -190,9 +190,10 @@ func (d *MaintenanceRequester) Checks(v []any) *MaintenanceRequester {
 //
 // Description: List of checks that could not be paused
 func (d *MaintenanceOutput) Failed() []any {
-	val := d.reply["failed"]
+	// replies do not have to have all outputs
+	val, _ := d.reply["failed"].([]any)
 
-	return val.([]any)
+	return val
 
 }
 
@@ -200,9 +201,10 @@ func (d *MaintenanceOutput) Failed() []any {
 //
 // Description: List of checks that was skipped
 func (d *MaintenanceOutput) Skipped() []any {
-	val := d.reply["skipped"]
+	// replies do not have to have all outputs
+	val, _ := d.reply["skipped"].([]any)
 
-	return val.([]any)
+	return val
 
 }
 
@@ -210,8 +212,9 @@ func (d *MaintenanceOutput) Skipped() []any {
 //
 // Description: List of checks that were paused
 func (d *MaintenanceOutput) Transitioned() []any {
-	val := d.reply["transitioned"]
+	// replies do not have to have all outputs
+	val, _ := d.reply["transitioned"].([]any)
 
-	return val.([]any)
+	return val
 
 }
diff --git a/client/scoutclient/action_resume.go b/client/scoutclient/action_resume.go
index e24795f..8c3a56b 100644
--- a/client/scoutclient/action_resume.go
+++ b/client/scoutclient/action_resume.go
@@ -190,9 +190,10 @@ func (d *ResumeRequester) Checks(v []any) *ResumeRequester {
 //
 // Description: List of checks that could not be resumed
 func (d *ResumeOutput) Failed() []any {
-	val := d.reply["failed"]
+	// replies do not have to have all outputs
+	val, _ := d.reply["failed"].([]any)
 
-	return val.([]any)
+	return val
 
 }
 
@@ -200,9 +201,10 @@ func (d *ResumeOutput) Failed() []any {
 //
 // Description: List of checks that was skipped
 func (d *ResumeOutput) Skipped() []any {
-	val := d.reply["skipped"]
+	// replies do not have to have all outputs
+	val, _ := d.reply["skipped"].([]any)
 
-	return val.([]any)
+	return val
 
 }
 
@@ -210,8 +212,9 @@ func (d *ResumeOutput) Skipped() []any {
 //
 // Description: List of checks that were resumed
 func (d *ResumeOutput) Transitioned() []any {
-	val := d.reply["transitioned"]
+	// replies do not have to have all outputs
+	val, _ := d.reply["transitioned"].([]any)
 
-	return val.([]any)
+	return val
 
 }
diff --git a/client/scoutclient/action_trigger.go b/client/scoutclient/action_trigger.go
index 50b9587..6d3f9b7 100644
--- a/client/scoutclient/action_trigger.go
+++ b/client/scoutclient/action_trigger.go
@@ -190,9 +190,10 @@ func (d *TriggerRequester) Checks(v []any) *TriggerRequester {
 //
 // Description: List of checks that could not be triggered
 func (d *TriggerOutput) Failed() []any {
-	val := d.reply["failed"]
+	// replies do not have to have all outputs
+	val, _ := d.reply["failed"].([]any)
 
-	return val.([]any)
+	return val
 
 }
 
@@ -200,9 +201,10 @@ func (d *TriggerOutput) Failed() []any {
 //
 // Description: List of checks that was skipped
 func (d *TriggerOutput) Skipped() []any {
-	val := d.reply["skipped"]
+	// replies do not have to have all outputs
+	val, _ := d.reply["skipped"].([]any)
 
-	return val.([]any)
+	return val
 
 }
 
@@ -210,8 +212,9 @@ func (d *TriggerOutput) Skipped() []any {
 //
 // Description: List of checks that were triggered
 func (d *TriggerOutput) Transitioned() []any {
-	val := d.reply["transitioned"]
+	// replies do not have to have all outputs
+	val, _ := d.reply["transitioned"].([]any)
 
-	return val.([]any)
+	return val
 
 }
diff --git a/generators/client/template_helpers.go b/generators/client/template_helpers.go
index a6e08c6..d2a7336 100644
--- a/generators/client/template_helpers.go
+++ b/generators/client/template_helpers.go
@@ -43,25 +43,6 @@ func (g *Generator) templFSnakeToCamelUnexported(v string) string {
 	return strings.Join(out, "")
 }
 
-func (g *Generator) templFChoriaTypeToValOfType(v string) string {
-	switch v {
-	case "string", "list":
-		return "val.(string)"
-	case "integer":
-		return "val.(int64)"
-	case "number", "float":
-		return "val.(float64)"
-	case "boolean":
-		return "val.(bool)"
-	case "hash":
-		return "val.(map[string]any)"
-	case "array":
-		return "val.([]any)"
-	default:
-		return "val.(any)"
-	}
-}
-
 func (g *Generator) templFChoriaRequiredInputsToFuncArgs(act *addl.Action) string {
 	inputs := g.optionalInputSelect(act, false)
 	var parts []string
@@ -131,6 +112,5 @@ func (g *Generator) funcMap() template.FuncMap {
 		"ChoriaOptionalInputs":           g.templFChoriaOptionalInputs,
 		"ChoriaRequiredInputsToFuncArgs": g.templFChoriaRequiredInputsToFuncArgs,
 		"ChoriaTypeToGoType":             g.templFChoriaTypeToGo,
-		"ChoriaTypeToValOfType":          g.templFChoriaTypeToValOfType,
 	}
 }
diff --git a/internal/fs/client/action.templ b/internal/fs/client/action.templ
index 1ab780b..c0c88c7 100644
--- a/internal/fs/client/action.templ
+++ b/internal/fs/client/action.templ
@@ -196,14 +196,18 @@ func (d *{{ $.ActionName | SnakeToCamel }}Output) {{ $name | SnakeToCamel }}() {
 		// we have to avoid returning nil.(any)
 		return nil
 	}
-{{- else -}}
-	val := d.reply["{{ $name }}"]
+{{- else if eq "int64" $return_type }}
+	// numbers are floats in JSON, and replies do not have to have all outputs
+	val, _ := d.reply["{{ $name }}"].(float64)
+{{ else }}
+	// replies do not have to have all outputs
+	val, _ := d.reply["{{ $name }}"].({{ $return_type }})
 {{ end }}
 
-{{ if eq "any" $return_type  -}}
-    	return val
+{{ if eq "int64" $return_type -}}
+	return int64(val)
 {{ else -}}
-	return {{ ChoriaTypeToValOfType $output.Type }}
+	return val
 {{ end }}
 }
 {{ end }}
-- 
2.43.0


From bcbc85073edcc6a540fbefc50b84933599a08396 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:40:18 +0000
Subject: [PATCH 76/88] fix: optional inputs of generated clients were sent in
 lower case and not under the name in the DDL

---
 client/choria_provisionclient/action_gencsr.go | 10 +++++-----
 internal/fs/client/action.templ                |  2 +-
 2 files changed, 6 insertions(+), 6 deletions(-)

diff --git a/client/choria_provisionclient/action_gencsr.go b/client/choria_provisionclient/action_gencsr.go
index a95450f..b64b192 100644
--- a/client/choria_provisionclient/action_gencsr.go
+++ b/client/choria_provisionclient/action_gencsr.go
@@ -181,7 +181,7 @@ func (d *GencsrResult) EachOutput(h func(r *GencsrOutput)) {
 //
 // Description: Country Code
 func (d *GencsrRequester) C(v string) *GencsrRequester {
-	d.r.args["c"] = v
+	d.r.args["C"] = v
 
 	return d
 }
@@ -190,7 +190,7 @@ func (d *GencsrRequester) C(v string) *GencsrRequester {
 //
 // Description: Locality or municipality (such as city or town name)
 func (d *GencsrRequester) L(v string) *GencsrRequester {
-	d.r.args["l"] = v
+	d.r.args["L"] = v
 
 	return d
 }
@@ -199,7 +199,7 @@ func (d *GencsrRequester) L(v string) *GencsrRequester {
 //
 // Description: Organization
 func (d *GencsrRequester) O(v string) *GencsrRequester {
-	d.r.args["o"] = v
+	d.r.args["O"] = v
 
 	return d
 }
@@ -208,7 +208,7 @@ func (d *GencsrRequester) O(v string) *GencsrRequester {
 //
 // Description: Organizational Unit
 func (d *GencsrRequester) Ou(v string) *GencsrRequester {
-	d.r.args["ou"] = v
+	d.r.args["OU"] = v
 
 	return d
 }
@@ -217,7 +217,7 @@ func (d *GencsrRequester) Ou(v string) *GencsrRequester {
 //
 // Description: State
 func (d *GencsrRequester) St(v string) *GencsrRequester {
-	d.r.args["st"] = v
+	d.r.args["ST"] = v
 
 	return d
 }
diff --git a/internal/fs/client/action.templ b/internal/fs/client/action.templ
index c0c88c7..fa8285a 100644
--- a/internal/fs/client/action.templ
+++ b/internal/fs/client/action.templ
@@ -179,7 +179,7 @@ func (d *{{ .ActionName | SnakeToCamel }}Result) EachOutput(h func(r *{{ .Action
 //
 // Description: {{ $input.Description }}
 func (d *{{ $.ActionName | SnakeToCamel }}Requester) {{ $name | SnakeToCamel }}(v {{ ChoriaTypeToGoType $input.Type }}) *{{ $.ActionName | SnakeToCamel }}Requester {
-	d.r.args["{{ $name | ToLower }}"] = v
+	d.r.args["{{ $name }}"] = v
 
 	return d
 }
-- 
2.43.0


From 87176c54a2f873c0e996aa8e6a8146b2dd934630 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:54:54 +0000
Subject: [PATCH 77/88] fix: account for both autonomous agent workers and stop
 the HTTP listeners at shutdown

---
 aagent/aagent.go | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/aagent/aagent.go b/aagent/aagent.go
index 12874ed..a934079 100644
--- a/aagent/aagent.go
+++ b/aagent/aagent.go
@@ -82,6 +82,7 @@ func (a *AAgent) startHTTPListeners(ctx context.Context, wg *sync.WaitGroup) {
 	a.httpManager, err = aahttp.NewHTTPServer(a.logger.WithField("port", httpPort))
 	if err != nil {
 		a.logger.Errorf("Could not start Autonomous Agent HTTP listeners: %s", err)
+		return
 	}
 
 	mux := http.NewServeMux()
@@ -94,6 +95,10 @@ func (a *AAgent) startHTTPListeners(ctx context.Context, wg *sync.WaitGroup) {
 		Handler:     mux,
 		Addr:        fmt.Sprintf(":%d", httpPort),
 	}
+
+	stop := context.AfterFunc(ctx, func() { srv.Close() })
+	defer stop()
+
 	err = srv.ListenAndServe()
 	if errors.Is(err, http.ErrServerClosed) {
 		return
@@ -104,7 +109,7 @@ func (a *AAgent) startHTTPListeners(ctx context.Context, wg *sync.WaitGroup) {
 
 // ManageMachines start observing the source directories starting and stopping machines based on changes on disk
 func (a *AAgent) ManageMachines(ctx context.Context, wg *sync.WaitGroup) error {
-	wg.Add(1)
+	wg.Add(2)
 	go a.watchSource(ctx, wg)
 	go a.startHTTPListeners(ctx, wg)
 
-- 
2.43.0


From 4ac7c53ac7119b3ba72db4cb986d3431d477df5e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:57:47 +0000
Subject: [PATCH 78/88] fix: stop schedule items from waiting for a stopped
 schedule watcher

---
 aagent/watchers/schedulewatcher/item.go | 15 ++++++++++++---
 1 file changed, 12 insertions(+), 3 deletions(-)

diff --git a/aagent/watchers/schedulewatcher/item.go b/aagent/watchers/schedulewatcher/item.go
index 91ea59d..95821fa 100644
--- a/aagent/watchers/schedulewatcher/item.go
+++ b/aagent/watchers/schedulewatcher/item.go
@@ -68,7 +68,11 @@ func (s *scheduleItem) check(ctx context.Context) {
 
 		s.watcher.Infof("Schedule %s starting", s.spec)
 		s.on = true
-		s.events <- 1
+		select {
+		case s.events <- 1:
+		case <-ctx.Done():
+			return
+		}
 
 		go s.wait(ctx, s.duration-sleep)
 	}
@@ -86,10 +90,15 @@ func (s *scheduleItem) wait(ctx context.Context, t time.Duration) {
 	}
 
 	s.Lock()
+	defer s.Unlock()
+
 	s.watcher.Infof("Schedule %s ending", s.spec)
 	s.on = false
-	s.events <- -1
-	s.Unlock()
+
+	select {
+	case s.events <- -1:
+	case <-ctx.Done():
+	}
 }
 
 func (s *scheduleItem) start(ctx context.Context, wg *sync.WaitGroup) {
-- 
2.43.0


From cfd831b9720c1488a813d906e0d65fd75145a556 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:57:47 +0000
Subject: [PATCH 79/88] fix: do not wait for a stopped request processor to
 take a reply

---
 server/agents/agents.go | 21 +++++++++++++++++----
 1 file changed, 17 insertions(+), 4 deletions(-)

diff --git a/server/agents/agents.go b/server/agents/agents.go
index 82bceb5..359793b 100644
--- a/server/agents/agents.go
+++ b/server/agents/agents.go
@@ -377,22 +377,35 @@ func (a *Manager) Dispatch(ctx context.Context, wg *sync.WaitGroup, replies chan
 
 	go agent.HandleMessage(timeout, msg, request, a.conn, result)
 
+	var reply *AgentReply
+
 	select {
-	case reply := <-result:
-		replies <- reply
+	case reply = <-result:
 	case <-ctx.Done():
-		replies <- &AgentReply{
+		reply = &AgentReply{
 			Message: msg,
 			Request: request,
 			Error:   fmt.Errorf("agent dispatcher for request %s exiting on interrupt", msg.RequestID()),
 		}
 	case <-timeout.Done():
-		replies <- &AgentReply{
+		reply = &AgentReply{
 			Message: msg,
 			Request: request,
 			Error:   fmt.Errorf("agent dispatcher for request %s exiting on %ds timeout", msg.RequestID(), agent.Metadata().Timeout),
 		}
 	}
+
+	// the processor stops reading replies at shutdown, those that still fit are handed over
+	select {
+	case replies <- reply:
+		return
+	default:
+	}
+
+	select {
+	case replies <- reply:
+	case <-ctx.Done():
+	}
 }
 
 // Logger is the logger the manager prefers new agents derive from
-- 
2.43.0


From 53affbe74caec99318168f7287874ead2ee225d3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:57:47 +0000
Subject: [PATCH 80/88] fix: end subscription copiers that nobody reads from
 any more

---
 choria/connection.go | 16 ++++++++++++++--
 1 file changed, 14 insertions(+), 2 deletions(-)

diff --git a/choria/connection.go b/choria/connection.go
index a047007..2635a5e 100644
--- a/choria/connection.go
+++ b/choria/connection.go
@@ -223,7 +223,11 @@ func (conn *Connection) ChanQueueSubscribe(name string, subject string, group st
 		for {
 			select {
 			case m := <-subs.in:
-				subs.out <- &ConnectorMessage{data: m.Data, reply: m.Reply, subject: m.Subject, msg: m}
+				select {
+				case subs.out <- &ConnectorMessage{data: m.Data, reply: m.Reply, subject: m.Subject, msg: m}:
+				case <-subs.quit:
+					return
+				}
 			case <-subs.quit:
 				return
 			}
@@ -266,7 +270,15 @@ func (conn *Connection) QueueSubscribe(ctx context.Context, name string, subject
 		for {
 			select {
 			case m := <-s.in:
-				s.out <- &ConnectorMessage{data: m.Data, reply: m.Reply, subject: m.Subject, msg: m}
+				select {
+				case s.out <- &ConnectorMessage{data: m.Data, reply: m.Reply, subject: m.Subject, msg: m}:
+				case <-ctx.Done():
+					conn.Unsubscribe(name)
+					return
+				case <-s.quit:
+					close(s.in)
+					return
+				}
 			case <-ctx.Done():
 				conn.Unsubscribe(name)
 				return
-- 
2.43.0


From 80c77ffb46db9310d33115301bc9b6f92afa9385 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:57:47 +0000
Subject: [PATCH 81/88] fix: do not close or wait on the queues of an ephemeral
 that is stopping

---
 scout/stream/ephemeral.go | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/scout/stream/ephemeral.go b/scout/stream/ephemeral.go
index 34df504..4683340 100644
--- a/scout/stream/ephemeral.go
+++ b/scout/stream/ephemeral.go
@@ -104,10 +104,13 @@ func (e *Ephemeral) manage() error {
 				continue
 			}
 
-			e.q <- msg
+			select {
+			case e.q <- msg:
+			case <-e.ctx.Done():
+				return nil
+			}
 
 		case <-e.ctx.Done():
-			close(msgq)
 			return nil
 
 		case <-ticker.C:
-- 
2.43.0


From 13333c2aab08f70d629d57c632b304a211c9dcea Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:57:47 +0000
Subject: [PATCH 82/88] fix: stop federation workers that wait to hand a
 message over

---
 broker/federation/choria_nats_ingest.go  | 6 +++++-
 broker/federation/reply_transformer.go   | 6 +++++-
 broker/federation/request_transformer.go | 6 +++++-
 3 files changed, 15 insertions(+), 3 deletions(-)

diff --git a/broker/federation/choria_nats_ingest.go b/broker/federation/choria_nats_ingest.go
index 758e900..d57e0b2 100644
--- a/broker/federation/choria_nats_ingest.go
+++ b/broker/federation/choria_nats_ingest.go
@@ -73,7 +73,11 @@ func NewChoriaNatsIngest(workers int, mode int, capacity int, broker *Federation
 
 			logger.Debugf("Received message %s via %s", reqid, message.SenderID())
 
-			self.out <- cm
+			select {
+			case self.out <- cm:
+			case <-ctx.Done():
+				return
+			}
 			ctr.Inc()
 		}
 
diff --git a/broker/federation/reply_transformer.go b/broker/federation/reply_transformer.go
index b6e6cfe..8875c08 100644
--- a/broker/federation/reply_transformer.go
+++ b/broker/federation/reply_transformer.go
@@ -48,7 +48,11 @@ func NewChoriaReplyTransformer(workers int, capacity int, broker *FederationBrok
 
 			logger.Debugf("Received a reply message '%s' via %s", cm.RequestID, cm.Message.SenderID())
 
-			self.out <- cm
+			select {
+			case self.out <- cm:
+			case <-ctx.Done():
+				return
+			}
 
 			rctr.Inc()
 		}
diff --git a/broker/federation/request_transformer.go b/broker/federation/request_transformer.go
index 21bc371..3188de7 100644
--- a/broker/federation/request_transformer.go
+++ b/broker/federation/request_transformer.go
@@ -57,7 +57,11 @@ func NewChoriaRequestTransformer(workers int, capacity int, broker *FederationBr
 
 			logger.Infof("Received request message '%s' via %s with %d targets", cm.RequestID, cm.Message.SenderID(), len(cm.Targets))
 
-			self.out <- cm
+			select {
+			case self.out <- cm:
+			case <-ctx.Done():
+				return
+			}
 
 			rctr.Inc()
 		}
-- 
2.43.0


From 57940f16f436dfddee560d3bc13313fbecf87857 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:58:06 +0000
Subject: [PATCH 83/88] fix: stop registration workers that wait for a
 registration manager that left

---
 providers/registration/file_content.go      |  4 ++--
 providers/registration/inventory_content.go |  4 ++--
 providers/registration/registration.go      | 19 +++++++++++++++++++
 3 files changed, 23 insertions(+), 4 deletions(-)

diff --git a/providers/registration/file_content.go b/providers/registration/file_content.go
index 721cf24..f474101 100644
--- a/providers/registration/file_content.go
+++ b/providers/registration/file_content.go
@@ -72,7 +72,7 @@ func (fc *FileContent) StartRegistration(ctx context.Context, wg *sync.WaitGroup
 		return
 	}
 
-	err = fc.publish(output)
+	err = publishItem(ctx, output, fc.publish)
 	if err != nil {
 		fc.log.Errorf("Could not create registration data: %s", err)
 	}
@@ -82,7 +82,7 @@ func (fc *FileContent) StartRegistration(ctx context.Context, wg *sync.WaitGroup
 	for {
 		select {
 		case <-ticker.C:
-			err = fc.publish(output)
+			err = publishItem(ctx, output, fc.publish)
 			if err != nil {
 				fc.log.Errorf("Could not create registration data: %s", err)
 			}
diff --git a/providers/registration/inventory_content.go b/providers/registration/inventory_content.go
index 6d83d69..bcf4a09 100644
--- a/providers/registration/inventory_content.go
+++ b/providers/registration/inventory_content.go
@@ -86,7 +86,7 @@ func (ic *InventoryContent) StartRegistration(ctx context.Context, wg *sync.Wait
 		return
 	}
 
-	err = ic.publish(output)
+	err = publishItem(ctx, output, ic.publish)
 	if err != nil {
 		ic.log.Errorf("Could not create registration data: %s", err)
 	}
@@ -96,7 +96,7 @@ func (ic *InventoryContent) StartRegistration(ctx context.Context, wg *sync.Wait
 	for {
 		select {
 		case <-ticker.C:
-			err = ic.publish(output)
+			err = publishItem(ctx, output, ic.publish)
 			if err != nil {
 				ic.log.Errorf("Could not create registration data: %s", err)
 			}
diff --git a/providers/registration/registration.go b/providers/registration/registration.go
index b2258a4..9c87dde 100644
--- a/providers/registration/registration.go
+++ b/providers/registration/registration.go
@@ -7,12 +7,14 @@ package registration
 import (
 	"bytes"
 	"compress/gzip"
+	"context"
 	"encoding/json"
 
 	"github.com/choria-io/go-choria/aagent"
 	"github.com/choria-io/go-choria/build"
 	"github.com/choria-io/go-choria/providers/data/ddl"
 	"github.com/choria-io/go-choria/server/agents"
+	"github.com/choria-io/go-choria/server/data"
 	"github.com/choria-io/go-choria/statistics"
 )
 
@@ -50,3 +52,20 @@ func compress(data []byte) ([]byte, error) {
 
 	return b.Bytes(), nil
 }
+
+// hands over what publish produces unless the registration system stops reading from output
+func publishItem(ctx context.Context, output chan *data.RegistrationItem, publish func(chan *data.RegistrationItem) error) error {
+	items := make(chan *data.RegistrationItem, 1)
+
+	err := publish(items)
+	if err != nil {
+		return err
+	}
+
+	select {
+	case output <- <-items:
+	case <-ctx.Done():
+	}
+
+	return nil
+}
-- 
2.43.0


From 03f49cd98a354694e7c3a847a8bfd5599f5209c3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:58:18 +0000
Subject: [PATCH 84/88] fix: fail presses of switches that stopped instead of
 waiting forever

---
 .../watchers/httpswitchwatcher/httpswitch.go  | 29 +++++++++++++++----
 1 file changed, 24 insertions(+), 5 deletions(-)

diff --git a/aagent/watchers/httpswitchwatcher/httpswitch.go b/aagent/watchers/httpswitchwatcher/httpswitch.go
index b621715..a185030 100644
--- a/aagent/watchers/httpswitchwatcher/httpswitch.go
+++ b/aagent/watchers/httpswitchwatcher/httpswitch.go
@@ -56,6 +56,7 @@ type Watcher struct {
 	buttonPress chan State
 	previous    State
 	httpStarted bool
+	running     context.Context
 
 	mu *sync.Mutex
 }
@@ -91,9 +92,7 @@ func (w *Watcher) TurnOn() (bool, error) {
 		return false, fmt.Errorf("watcher is not in an active state")
 	}
 
-	w.buttonPress <- On
-
-	return true, nil
+	return w.press(On)
 }
 func (w *Watcher) TurnOff() (bool, error) {
 	if w.shouldBeDisabled(w.machine.State()) {
@@ -103,9 +102,25 @@ func (w *Watcher) TurnOff() (bool, error) {
 		return false, fmt.Errorf("switch is not in an active state")
 	}
 
-	w.buttonPress <- Off
+	return w.press(Off)
+}
 
-	return true, nil
+// hands a press to the running watcher, fails rather than wait for a watcher that stopped
+func (w *Watcher) press(s State) (bool, error) {
+	w.mu.Lock()
+	running := w.running
+	w.mu.Unlock()
+
+	if running == nil {
+		return false, fmt.Errorf("watcher is not running")
+	}
+
+	select {
+	case w.buttonPress <- s:
+		return true, nil
+	case <-running.Done():
+		return false, fmt.Errorf("watcher is stopped")
+	}
 }
 
 func (w *Watcher) registerWithHTTP() {
@@ -126,6 +141,10 @@ func (w *Watcher) registerWithHTTP() {
 func (w *Watcher) Run(ctx context.Context, wg *sync.WaitGroup) {
 	defer wg.Done()
 
+	w.mu.Lock()
+	w.running = ctx
+	w.mu.Unlock()
+
 	if w.ShouldWatch() {
 		w.NotifyStateChance()
 	}
-- 
2.43.0


From 7345f8cac36b59c391b56025106f4ae215d54dc4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 06:04:20 +0000
Subject: [PATCH 85/88] fix: do not wait for ever when a certificate was
 fetched more than once

---
 providers/security/puppetsec/puppet_security.go | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/providers/security/puppetsec/puppet_security.go b/providers/security/puppetsec/puppet_security.go
index b3aef59..1f060ef 100644
--- a/providers/security/puppetsec/puppet_security.go
+++ b/providers/security/puppetsec/puppet_security.go
@@ -259,7 +259,11 @@ func (s *PuppetSecurity) Enroll(ctx context.Context, wait time.Duration, cb func
 			return
 		}
 
-		complete <- 1
+		// one is enough, a slow fetch can be retried before the first success is seen
+		select {
+		case complete <- 1:
+		default:
+		}
 	}
 
 	fetcher()
-- 
2.43.0


From 6651ad6c6ea4043928248ee376da4ddad531bbeb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 06:07:48 +0000
Subject: [PATCH 86/88] fix: a request that ends must not end the subscription
 of a later one

---
 choria/connection.go | 77 +++++++++++++++++++++++++++-----------------
 1 file changed, 47 insertions(+), 30 deletions(-)

diff --git a/choria/connection.go b/choria/connection.go
index 2635a5e..34c1c2d 100644
--- a/choria/connection.go
+++ b/choria/connection.go
@@ -215,10 +215,6 @@ func (conn *Connection) ChanQueueSubscribe(name string, subject string, group st
 		quit: make(chan any, 1),
 	}
 
-	conn.subMu.Lock()
-	conn.chanSubscriptions[name] = s
-	conn.subMu.Unlock()
-
 	copier := func(subs *channelSubscription) {
 		for {
 			select {
@@ -234,8 +230,6 @@ func (conn *Connection) ChanQueueSubscribe(name string, subject string, group st
 		}
 	}
 
-	go copier(s)
-
 	conn.log.Debugf("Subscribing to %s in group '%s' on server %s", subject, group, conn.ConnectedServer())
 
 	s.subscription, err = conn.nats.ChanQueueSubscribe(subject, group, s.in)
@@ -243,6 +237,12 @@ func (conn *Connection) ChanQueueSubscribe(name string, subject string, group st
 		return nil, fmt.Errorf("could not subscribe to subscription %s: %s", name, err)
 	}
 
+	conn.subMu.Lock()
+	conn.chanSubscriptions[name] = s
+	conn.subMu.Unlock()
+
+	go copier(s)
+
 	err = conn.nats.Flush()
 	if err != nil {
 		return nil, fmt.Errorf("could not subscribe to subscription %s: %s", name, err)
@@ -262,10 +262,6 @@ func (conn *Connection) QueueSubscribe(ctx context.Context, name string, subject
 		quit: make(chan any, 1),
 	}
 
-	conn.subMu.Lock()
-	conn.chanSubscriptions[name] = s
-	conn.subMu.Unlock()
-
 	copier := func(ctx context.Context, s *channelSubscription) {
 		for {
 			select {
@@ -273,14 +269,14 @@ func (conn *Connection) QueueSubscribe(ctx context.Context, name string, subject
 				select {
 				case s.out <- &ConnectorMessage{data: m.Data, reply: m.Reply, subject: m.Subject, msg: m}:
 				case <-ctx.Done():
-					conn.Unsubscribe(name)
+					conn.endOwn(name, s)
 					return
 				case <-s.quit:
 					close(s.in)
 					return
 				}
 			case <-ctx.Done():
-				conn.Unsubscribe(name)
+				conn.endOwn(name, s)
 				return
 			case <-s.quit:
 				close(s.in)
@@ -289,8 +285,6 @@ func (conn *Connection) QueueSubscribe(ctx context.Context, name string, subject
 		}
 	}
 
-	go copier(ctx, s)
-
 	conn.log.Debugf("Subscribing to %s in group '%s' on server %s", subject, group, conn.ConnectedServer())
 
 	s.subscription, err = conn.nats.ChanQueueSubscribe(subject, group, s.in)
@@ -298,6 +292,12 @@ func (conn *Connection) QueueSubscribe(ctx context.Context, name string, subject
 		return fmt.Errorf("could not subscribe to subscription %s: %s", name, err)
 	}
 
+	conn.subMu.Lock()
+	conn.chanSubscriptions[name] = s
+	conn.subMu.Unlock()
+
+	go copier(ctx, s)
+
 	err = conn.nats.Flush()
 	if err != nil {
 		return fmt.Errorf("could not subscribe to subscription %s: %s", name, err)
@@ -310,24 +310,41 @@ func (conn *Connection) Unsubscribe(name string) error {
 	conn.subMu.Lock()
 	defer conn.subMu.Unlock()
 
-	if sub, ok := conn.chanSubscriptions[name]; ok {
-		if sub.subscription != nil {
-			conn.log.Debugf("Unsubscribing from %v", sub.subscription.Subject)
-
-			err := sub.subscription.Unsubscribe()
-
-			// a number of errors basically mean the subscription is either
-			// not there in reality, invalid or the connection is closed etc
-			// so we treat all those as ok
-			switch {
-			case errors.Is(err, nats.ErrBadSubscription):
-			case errors.Is(err, nats.ErrConnectionDraining):
-			case errors.Is(err, nats.ErrConnectionClosed):
-			case err != nil:
-				return fmt.Errorf("could not unsubscribe from %s: %s", name, err)
-			}
+	sub, ok := conn.chanSubscriptions[name]
+	if !ok {
+		return nil
+	}
+
+	return conn.endSubscription(name, sub)
+}
+
+func (conn *Connection) endOwn(name string, sub *channelSubscription) error {
+	conn.subMu.Lock()
+	defer conn.subMu.Unlock()
+
+	return conn.endSubscription(name, sub)
+}
+
+// endSubscription ends one subscription, one made later under the same name is left alone, called with subMu held
+func (conn *Connection) endSubscription(name string, sub *channelSubscription) error {
+	if sub.subscription != nil {
+		conn.log.Debugf("Unsubscribing from %v", sub.subscription.Subject)
+
+		err := sub.subscription.Unsubscribe()
+
+		// a number of errors basically mean the subscription is either
+		// not there in reality, invalid or the connection is closed etc
+		// so we treat all those as ok
+		switch {
+		case errors.Is(err, nats.ErrBadSubscription):
+		case errors.Is(err, nats.ErrConnectionDraining):
+		case errors.Is(err, nats.ErrConnectionClosed):
+		case err != nil:
+			return fmt.Errorf("could not unsubscribe from %s: %s", name, err)
 		}
+	}
 
+	if conn.chanSubscriptions[name] == sub {
 		sub.quit <- true
 
 		delete(conn.chanSubscriptions, name)
-- 
2.43.0


From af8743cac8587168e344ae77ff8a0ac726dec672 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 06:32:02 +0000
Subject: [PATCH 87/88] fix: the schema for v2 replies required the protocol of
 v2 requests

---
 internal/fs/schemas/choria/protocol/v2/reply.json | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/internal/fs/schemas/choria/protocol/v2/reply.json b/internal/fs/schemas/choria/protocol/v2/reply.json
index 9e8b95b..2537d90 100644
--- a/internal/fs/schemas/choria/protocol/v2/reply.json
+++ b/internal/fs/schemas/choria/protocol/v2/reply.json
@@ -15,7 +15,7 @@
   "properties": {
     "protocol": {
       "type":"string",
-      "const": "io.choria.protocol.v2.request"
+      "const": "io.choria.protocol.v2.reply"
     },
     "message": {
       "type":"string",
-- 
2.43.0


From da186bb946b444e1e24684244b0468a219e4a2ee Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 07:48:17 +0000
Subject: [PATCH 88/88] fix: deny requests when the action policy groups can
 not be read

Without the groups policy lines that deny them were skipped, so a
request could be allowed by a later line or default
---
 providers/agent/mcorpc/authz_actionpolicy.go | 1 +
 1 file changed, 1 insertion(+)

diff --git a/providers/agent/mcorpc/authz_actionpolicy.go b/providers/agent/mcorpc/authz_actionpolicy.go
index 0612635..8e8dee0 100644
--- a/providers/agent/mcorpc/authz_actionpolicy.go
+++ b/providers/agent/mcorpc/authz_actionpolicy.go
@@ -39,6 +39,7 @@ func actionPolicyAuthorize(req *Request, cfg *config.Config, log *logrus.Entry)
 	err := authz.parseGroupFile("")
 	if err != nil {
 		authz.log.Errorf("failed to parse groups file: %s", err)
+		return false
 	}
 
 	return authz.authorize()
-- 
2.43.0

