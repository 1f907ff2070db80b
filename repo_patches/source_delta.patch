From 1cc278839cacba5d41592951d6e5583afd3ad4a3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:36:57 +0000
Subject: [PATCH 01/20] fix: refuse negative and overflowing read lengths
 instead of panicking

A DataRow with a value length below -1 sliced the buffer with a negative bound.
---
 pkg/pg/read_buffer.go | 12 +++++++++++-
 1 file changed, 11 insertions(+), 1 deletion(-)

diff --git a/pkg/pg/read_buffer.go b/pkg/pg/read_buffer.go
index 0b897b5..955cc80 100644
--- a/pkg/pg/read_buffer.go
+++ b/pkg/pg/read_buffer.go
@@ -32,7 +32,7 @@ func (b *ReadBuffer) Len() int {
 // ReadBytes reads and returns exactly n bytes from the buffer. The bytes are removed from the buffer afterwards.
 // If there are not enough bytes in the buffer available, it returns error io.EOF and does not advance.
 func (b *ReadBuffer) ReadBytes(n int) ([]byte, error) {
-	if b.Len() < n {
+	if n < 0 || b.Len() < n {
 		return nil, io.EOF
 	}
 
@@ -104,6 +104,11 @@ func (b *ReadBuffer) ReadString() (string, error) {
 // ReadInt32Array decodes an array of k 32-bit signed integers and advances the buffer over it.
 // If there are not enough bytes in the buffer available, it returns error io.EOF and does not advance.
 func (b *ReadBuffer) ReadInt32Array(k int) ([]int32, error) {
+	// NB: k * 4 could overflow
+	if k < 0 || k > b.Len()/4 {
+		return nil, io.EOF
+	}
+
 	arrBytes, err := b.ReadBytes(k * 4)
 
 	if err != nil {
@@ -122,6 +127,11 @@ func (b *ReadBuffer) ReadInt32Array(k int) ([]int32, error) {
 // ReadInt16Array decodes an array of k 16-bit signed integers and advances the buffer over it.
 // If there are not enough bytes in the buffer available, it returns error io.EOF and does not advance.
 func (b *ReadBuffer) ReadInt16Array(k int) ([]int16, error) {
+	// NB: k * 2 could overflow
+	if k < 0 || k > b.Len()/2 {
+		return nil, io.EOF
+	}
+
 	arrBytes, err := b.ReadBytes(k * 2)
 
 	if err != nil {
-- 
2.43.0


From 9568a987363067248c91cbd43beb421d8c213909 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:36:59 +0000
Subject: [PATCH 02/20] fix: refuse negative or oversized element counts in
 messages

A negative column count made the decoder panic, a huge option count made it
allocate gigabytes for a message of a few bytes.
---
 pkg/pg/data_row_message.go                   | 4 ++++
 pkg/pg/negotiate_protocol_version_message.go | 5 +++++
 pkg/pg/row_description_message.go            | 4 ++++
 3 files changed, 13 insertions(+)

diff --git a/pkg/pg/data_row_message.go b/pkg/pg/data_row_message.go
index 0a962cb..7161a98 100644
--- a/pkg/pg/data_row_message.go
+++ b/pkg/pg/data_row_message.go
@@ -29,6 +29,10 @@ func ParseDataRowMessage(frame Frame) (*DataRowMessage, error) {
 		return nil, err
 	}
 
+	if valuesCount < 0 {
+		return nil, ErrMalformedMessage
+	}
+
 	values := make([][]byte, valuesCount)
 
 	for i := 0; i < int(valuesCount); i++ {
diff --git a/pkg/pg/negotiate_protocol_version_message.go b/pkg/pg/negotiate_protocol_version_message.go
index 2f250f5..fdda174 100644
--- a/pkg/pg/negotiate_protocol_version_message.go
+++ b/pkg/pg/negotiate_protocol_version_message.go
@@ -38,6 +38,11 @@ func ParseNegotiateProtocolVersionMessage(frame Frame) (*NegotiateProtocolVersio
 		return nil, err
 	}
 
+	// Every option takes at least one byte (terminator)
+	if unrecognizedOptionsCount < 0 || int(unrecognizedOptionsCount) > messageData.Len() {
+		return nil, ErrMalformedMessage
+	}
+
 	unrecognizedOptions := make([]string, unrecognizedOptionsCount)
 
 	for i := 0; i < int(unrecognizedOptionsCount); i++ {
diff --git a/pkg/pg/row_description_message.go b/pkg/pg/row_description_message.go
index ebb8397..49221c4 100644
--- a/pkg/pg/row_description_message.go
+++ b/pkg/pg/row_description_message.go
@@ -65,6 +65,10 @@ func ParseRowDescriptionMessage(frame Frame) (*RowDescriptionMessage, error) {
 		return nil, err
 	}
 
+	if fieldsCount < 0 {
+		return nil, ErrMalformedMessage
+	}
+
 	fields := make([]*FieldDescriptor, fieldsCount)
 
 	for i := 0; i < int(fieldsCount); i++ {
-- 
2.43.0


From 96febb6d4713953eeecf14166c2a449f216693a5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:37:01 +0000
Subject: [PATCH 03/20] fix: refuse frames whose length doesn't even cover the
 length field

io.CopyN silently accepts a negative count, so such frames were accepted as
empty, and a length close to the minimal int32 overflowed into a huge one.
---
 pkg/pg/standard_frame.go | 5 +++++
 pkg/pg/startup_frame.go  | 5 +++++
 2 files changed, 10 insertions(+)

diff --git a/pkg/pg/standard_frame.go b/pkg/pg/standard_frame.go
index 6574816..7e014ce 100644
--- a/pkg/pg/standard_frame.go
+++ b/pkg/pg/standard_frame.go
@@ -70,6 +70,11 @@ func ReadStandardFrame(r io.Reader) (StandardFrame, error) {
 		return nil, err
 	}
 
+	// The length includes itself
+	if frameLength < 4 {
+		return nil, ErrMalformedMessage
+	}
+
 	// Read the rest of the frame
 	_, err = io.CopyN(buffer, r, int64(frameLength-4))
 
diff --git a/pkg/pg/startup_frame.go b/pkg/pg/startup_frame.go
index e6002ab..c7ac836 100644
--- a/pkg/pg/startup_frame.go
+++ b/pkg/pg/startup_frame.go
@@ -64,6 +64,11 @@ func ReadStartupFrame(r io.Reader) (StartupFrame, error) {
 		return nil, err
 	}
 
+	// The length includes itself
+	if frameLength < 4 {
+		return nil, ErrMalformedMessage
+	}
+
 	// Read the rest of the frame
 	_, err = io.CopyN(buffer, r, int64(frameLength-4))
 
-- 
2.43.0


From f8c460e76658fad7b4504d2556aeb2eefd1f6abc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:37:03 +0000
Subject: [PATCH 04/20] fix: decode NegotiateProtocolVersion messages with
 their own decoder

The notice decoder refuses them, which ended the session.
---
 pkg/pg/conn.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pkg/pg/conn.go b/pkg/pg/conn.go
index 60a7216..4cae06d 100644
--- a/pkg/pg/conn.go
+++ b/pkg/pg/conn.go
@@ -38,7 +38,7 @@ func (h *Conn) RecvMessage() (Message, error) {
 		return ParseAuthenticationRequestMessage(frame)
 
 	case NegotiateProtocolVersionMessageType:
-		return ParseNoticeResponseMessage(frame)
+		return ParseNegotiateProtocolVersionMessage(frame)
 
 	case BackendKeyDataMessageType:
 		return ParseBackendKeyDataMessage(frame)
-- 
2.43.0


From 65c78414ff13c53d4ff2d46469c63e88ecb490a6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:37:38 +0000
Subject: [PATCH 05/20] fix: decode messages according to who has sent them

Message types are ambiguous: Sync, Describe, Execute and Close sent by a client
were decoded as ParameterStatus, DataRow, ErrorResponse and CommandComplete,
which broke or corrupted every session using the extended query protocol.
Likewise SASL requests ended the session, and GSSAPI/SASL responses were cut at
the first zero byte.
---
 pkg/pg/conn.go        | 51 +++++++++++++++++++++++++++++++++----------
 pkg/server/session.go |  2 +-
 2 files changed, 41 insertions(+), 12 deletions(-)

diff --git a/pkg/pg/conn.go b/pkg/pg/conn.go
index 4cae06d..456cbcf 100644
--- a/pkg/pg/conn.go
+++ b/pkg/pg/conn.go
@@ -1,6 +1,8 @@
 package pg
 
 import (
+	"bytes"
+	"errors"
 	"net"
 )
 
@@ -25,7 +27,36 @@ func (h *Conn) RecvStartupMessage() (*StartupMessage, error) {
 	return ParseStartupMessage(frame)
 }
 
-// RecvMessage receives PostgreSQL message from the underlying network connection.
+// RecvFrontendMessage receives a message sent by a client from the underlying network connection.
+// NB: the same message type means different things when it is sent by a client and by a database.
+func (h *Conn) RecvFrontendMessage() (Message, error) {
+	frame, err := ReadStandardFrame(h.conn)
+
+	if err != nil {
+		return nil, err
+	}
+
+	switch frame.MessageType() {
+	case PasswordMessageType:
+		// GSSAPI, SSPI and SASL responses have the same type, but they are not a single string
+		if body := frame.MessageBody(); len(body) == 0 || bytes.IndexByte(body, 0) != len(body)-1 {
+			return ParseGenericMessage(frame)
+		}
+
+		return ParsePasswordMessage(frame)
+
+	case QueryMessageType:
+		return ParseQueryMessage(frame)
+
+	case TerminateMessageType:
+		return ParseTerminateMessage(frame)
+
+	default:
+		return ParseGenericMessage(frame)
+	}
+}
+
+// RecvMessage receives a message sent by a database from the underlying network connection.
 func (h *Conn) RecvMessage() (Message, error) {
 	frame, err := ReadStandardFrame(h.conn)
 
@@ -35,7 +66,14 @@ func (h *Conn) RecvMessage() (Message, error) {
 
 	switch frame.MessageType() {
 	case AuthenticationRequestMessageType:
-		return ParseAuthenticationRequestMessage(frame)
+		message, err := ParseAuthenticationRequestMessage(frame)
+
+		// Don't touch authentication methods that we know nothing about (e.g., SASL)
+		if errors.Is(err, ErrunsupportedAuthenticationRequest) {
+			return ParseGenericMessage(frame)
+		}
+
+		return message, err
 
 	case NegotiateProtocolVersionMessageType:
 		return ParseNegotiateProtocolVersionMessage(frame)
@@ -46,15 +84,9 @@ func (h *Conn) RecvMessage() (Message, error) {
 	case ParameterStatusMessageType:
 		return ParseParameterStatusMessage(frame)
 
-	case PasswordMessageType:
-		return ParsePasswordMessage(frame)
-
 	case ReadyForQueryMessageType:
 		return ParseReadyForQueryMessage(frame)
 
-	case QueryMessageType:
-		return ParseQueryMessage(frame)
-
 	case RowDescriptionMessageType:
 		return ParseRowDescriptionMessage(frame)
 
@@ -73,9 +105,6 @@ func (h *Conn) RecvMessage() (Message, error) {
 	case NoticeResponseMessageType:
 		return ParseNoticeResponseMessage(frame)
 
-	case TerminateMessageType:
-		return ParseTerminateMessage(frame)
-
 	default:
 		return ParseGenericMessage(frame)
 	}
diff --git a/pkg/server/session.go b/pkg/server/session.go
index 04b1831..d20721f 100644
--- a/pkg/server/session.go
+++ b/pkg/server/session.go
@@ -230,7 +230,7 @@ func (s *Session) establishDBConnection(startupMessage pg.Message) error {
 // startClientInPump pumps messages from the client into the clientIn channel.
 func (s *Session) startClientInPump() error {
 	for {
-		message, err := s.clientConn.RecvMessage()
+		message, err := s.clientConn.RecvFrontendMessage()
 
 		if err != nil {
 			return err
-- 
2.43.0


From c6e443ea52d4f9b55178c246d913dc9a4bbb6a66 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:37:40 +0000
Subject: [PATCH 06/20] fix: don't recurse for every SSL request of a client

A client repeating SSL requests overflowed the stack, which kills the process.
---
 pkg/server/session.go | 11 +++++++----
 1 file changed, 7 insertions(+), 4 deletions(-)

diff --git a/pkg/server/session.go b/pkg/server/session.go
index d20721f..f5f0ff9 100644
--- a/pkg/server/session.go
+++ b/pkg/server/session.go
@@ -158,8 +158,8 @@ func (s *Session) negotiateSessionParams() error {
 		return err
 	}
 
-	// Check if startup message is a SSL request
-	if startupMessage.ProtocolVersion == pg.SSLRequestMagic {
+	// Deny SSL requests until we receive an actual startup message
+	for startupMessage.ProtocolVersion == pg.SSLRequestMagic {
 		log.Info("session: client requested SSL; denying")
 
 		err = s.clientConn.SendByte('N')
@@ -168,8 +168,11 @@ func (s *Session) negotiateSessionParams() error {
 			return err
 		}
 
-		// DANGER! There is a possibility of an infinite loop here.
-		return s.negotiateSessionParams()
+		startupMessage, err = s.clientConn.RecvStartupMessage()
+
+		if err != nil {
+			return err
+		}
 	}
 
 	// Check the protocol version just in case
-- 
2.43.0


From 80cf36bffd0ac584d1886336d5ce9fec9e4ab16f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:37:42 +0000
Subject: [PATCH 07/20] fix: use the last value of a repeated startup parameter

PostgreSQL does the same, so a client could pass the database check with the
first value and connect to another database with the second.
---
 pkg/pg/startup_message.go | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/pkg/pg/startup_message.go b/pkg/pg/startup_message.go
index 1b136ef..9111194 100644
--- a/pkg/pg/startup_message.go
+++ b/pkg/pg/startup_message.go
@@ -92,12 +92,15 @@ func (m *StartupMessage) Frame() Frame {
 }
 
 // GetParameter returns parameter value by its name. If parameter is not set it returns an empty string.
+// NB: if parameter is set more than once the last value counts, same as in PostgreSQL.
 func (m *StartupMessage) GetParameter(name string) string {
+	value := ""
+
 	for _, param := range m.Parameters {
 		if param.Name == name {
-			return param.Value
+			value = param.Value
 		}
 	}
 
-	return ""
+	return value
 }
-- 
2.43.0


From 945842e48cfa39e0c6b2315380a00a40098ae42d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:37:44 +0000
Subject: [PATCH 08/20] fix: don't write message contents to the log

Passwords, queries and row data were logged in clear text at the default level.
---
 pkg/server/session.go | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/pkg/server/session.go b/pkg/server/session.go
index f5f0ff9..613f6d4 100644
--- a/pkg/server/session.go
+++ b/pkg/server/session.go
@@ -306,7 +306,7 @@ func (s *Session) startProcessing() error {
 				return nil
 			}
 
-			log.Infof("-> %s", clientMsg.Frame().Bytes())
+			log.Debugf("session: -> %q", clientMsg.Frame().MessageType())
 
 			s.dbOut <- clientMsg
 
@@ -315,7 +315,7 @@ func (s *Session) startProcessing() error {
 				return nil
 			}
 
-			log.Infof("<- %s", dbMsg.Frame().Bytes())
+			log.Debugf("session: <- %q", dbMsg.Frame().MessageType())
 
 			s.clientOut <- dbMsg
 		}
-- 
2.43.0


From 7dd6b91de12c22def6bc28bcf37a2aa03cff8826 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:39:11 +0000
Subject: [PATCH 09/20] fix: end the session when either side hangs up, and
 only then

- the goroutines of a session waited for each other forever after a hang-up, so
  that the other connection was never closed
- Close closed channels other goroutines were sending to, which is a panic
- one goroutine relayed both directions, so a database that doesn't read blocked
  the client's results, and with that itself
---
 pkg/server/session.go | 94 +++++++++++++++++++++++++++++--------------
 1 file changed, 63 insertions(+), 31 deletions(-)

diff --git a/pkg/server/session.go b/pkg/server/session.go
index 613f6d4..aa31c22 100644
--- a/pkg/server/session.go
+++ b/pkg/server/session.go
@@ -96,7 +96,8 @@ func (s *Session) Start() error {
 	g.Go(s.startClientOutPump)
 	g.Go(s.startDBInPump)
 	g.Go(s.startDBOutPump)
-	g.Go(s.startProcessing)
+	g.Go(s.startClientProcessing)
+	g.Go(s.startDBProcessing)
 
 	// Wait for the first error (or successful exit)
 	err = g.Wait()
@@ -122,7 +123,7 @@ func (s *Session) Close() (err error) {
 
 	log.Info("session: closing")
 
-	// Close network connections — this will stop in pumps
+	// Close network connections — this will stop in pumps and thus everything that depends on them
 	if s.clientConn != nil {
 		err = s.clientConn.Close()
 
@@ -135,14 +136,6 @@ func (s *Session) Close() (err error) {
 		log.Debugf("session: db connection is closed; err = %v", err)
 	}
 
-	// Close all message channels — this will stop out pumps and processing goroutine
-	close(s.clientIn)
-	close(s.clientOut)
-	close(s.dbIn)
-	close(s.dbOut)
-
-	log.Debug("session: channels closed")
-
 	return
 }
 
@@ -232,6 +225,9 @@ func (s *Session) establishDBConnection(startupMessage pg.Message) error {
 
 // startClientInPump pumps messages from the client into the clientIn channel.
 func (s *Session) startClientInPump() error {
+	// NB: only the sender can close the channel; everything that is already in there will be processed
+	defer close(s.clientIn)
+
 	for {
 		message, err := s.clientConn.RecvFrontendMessage()
 
@@ -239,7 +235,11 @@ func (s *Session) startClientInPump() error {
 			return err
 		}
 
-		s.clientIn <- message
+		select {
+		case s.clientIn <- message:
+		case <-s.closed.Done():
+			return nil
+		}
 	}
 }
 
@@ -249,15 +249,18 @@ func (s *Session) startClientOutPump() error {
 		// Get next message in queue
 		message, ok := <-s.clientOut
 
-		// Channel is closed — exit
+		// Channel is closed: the database is gone and the client has got all its messages — end the session
 		if !ok {
-			return nil
+			return s.Close()
 		}
 
 		// Send the message over the network
 		err := s.clientConn.SendMessage(message)
 
 		if err != nil {
+			// Hang up; the database still has to get what we have received from the client
+			s.clientConn.Close()
+
 			return err
 		}
 	}
@@ -265,6 +268,9 @@ func (s *Session) startClientOutPump() error {
 
 // startClientOutPump pumps messages from the database into the dbIn channel.
 func (s *Session) startDBInPump() error {
+	// NB: only the sender can close the channel; everything that is already in there will be processed
+	defer close(s.dbIn)
+
 	for {
 		message, err := s.dbConn.RecvMessage()
 
@@ -272,7 +278,11 @@ func (s *Session) startDBInPump() error {
 			return err
 		}
 
-		s.dbIn <- message
+		select {
+		case s.dbIn <- message:
+		case <-s.closed.Done():
+			return nil
+		}
 	}
 }
 
@@ -282,42 +292,64 @@ func (s *Session) startDBOutPump() error {
 		// Get next message in queue
 		message, ok := <-s.dbOut
 
-		// Channel is closed — exit
+		// Channel is closed: the client is gone and the database has got all its messages — end the session
 		if !ok {
-			return nil
+			return s.Close()
 		}
 
 		// Send the message over the network
 		err := s.dbConn.SendMessage(message)
 
 		if err != nil {
+			// Hang up; the client still has to get what we have received from the database
+			s.dbConn.Close()
+
 			return err
 		}
 	}
 }
 
-// startProcessing dispatches messages between the database and the client.
-func (s *Session) startProcessing() error {
-	// FIXME: temporary just proxy everything from the client to the database and vice versa
+// startClientProcessing dispatches messages from the client to the database.
+// NB: every direction has its own goroutine, so that they never wait for each other.
+func (s *Session) startClientProcessing() error {
+	defer close(s.dbOut)
+
+	// FIXME: temporary just proxy everything from the client to the database
 	for {
+		clientMsg, ok := <-s.clientIn
+
+		if !ok {
+			return nil
+		}
+
+		log.Debugf("session: -> %q", clientMsg.Frame().MessageType())
+
 		select {
-		case clientMsg, ok := <-s.clientIn:
-			if !ok {
-				return nil
-			}
+		case s.dbOut <- clientMsg:
+		case <-s.closed.Done():
+			return nil
+		}
+	}
+}
 
-			log.Debugf("session: -> %q", clientMsg.Frame().MessageType())
+// startDBProcessing dispatches messages from the database to the client.
+func (s *Session) startDBProcessing() error {
+	defer close(s.clientOut)
 
-			s.dbOut <- clientMsg
+	// FIXME: temporary just proxy everything from the database to the client
+	for {
+		dbMsg, ok := <-s.dbIn
 
-		case dbMsg, ok := <-s.dbIn:
-			if !ok {
-				return nil
-			}
+		if !ok {
+			return nil
+		}
 
-			log.Debugf("session: <- %q", dbMsg.Frame().MessageType())
+		log.Debugf("session: <- %q", dbMsg.Frame().MessageType())
 
-			s.clientOut <- dbMsg
+		select {
+		case s.clientOut <- dbMsg:
+		case <-s.closed.Done():
+			return nil
 		}
 	}
 }
-- 
2.43.0


From 908f2d8dbcfa3fb0425f0f619f0643bfd89c2310 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:39:36 +0000
Subject: [PATCH 10/20] fix: interrupt dialing and never leak the database
 connection when closing a session

Close during the handshake missed the connection that was about to be
established, and the server's watchdog panicked if dialing took longer than 5s.
---
 pkg/server/session.go | 50 +++++++++++++++++++++++++++++++++++--------
 1 file changed, 41 insertions(+), 9 deletions(-)

diff --git a/pkg/server/session.go b/pkg/server/session.go
index aa31c22..dd9ed90 100644
--- a/pkg/server/session.go
+++ b/pkg/server/session.go
@@ -14,7 +14,7 @@ import (
 
 // Session represents a proxied PostgreSQL database session.
 type Session struct {
-	// Guards dbConnectionParams
+	// Guards dbConn and dbConnectionParams
 	mu sync.Mutex
 
 	// Global configuration
@@ -130,8 +130,13 @@ func (s *Session) Close() (err error) {
 		log.Debugf("session: client connection is closed; err = %v", err)
 	}
 
-	if s.dbConn != nil {
-		err = s.dbConn.Close()
+	// NB: establishDBConnection closes the connection by itself if it comes later than that
+	s.mu.Lock()
+	dbConn := s.dbConn
+	s.mu.Unlock()
+
+	if dbConn != nil {
+		err = dbConn.Close()
 
 		log.Debugf("session: db connection is closed; err = %v", err)
 	}
@@ -204,14 +209,20 @@ func (s *Session) establishDBConnection(startupMessage pg.Message) error {
 	}
 
 	// Connect to the database
-	conn, err := net.Dial("tcp", net.JoinHostPort(host, port))
+	dialer := net.Dialer{Cancel: s.closed.Done()} //nolint:staticcheck // simpler than a context here
+
+	conn, err := dialer.Dial("tcp", net.JoinHostPort(host, port))
 
 	if err != nil {
 		return err
 	}
 
 	// Convert to pg.NewConn
-	s.dbConn = pg.NewConn(conn)
+	err = s.setDBConn(pg.NewConn(conn))
+
+	if err != nil {
+		return err
+	}
 
 	// Send initial startup message that we received from the client
 	err = s.dbConn.SendMessage(startupMessage)
@@ -223,6 +234,22 @@ func (s *Session) establishDBConnection(startupMessage pg.Message) error {
 	return nil
 }
 
+// setDBConn sets the connection to the database. If the session is already closed it closes the connection instead.
+func (s *Session) setDBConn(conn *pg.Conn) error {
+	s.mu.Lock()
+	defer s.mu.Unlock()
+
+	if s.closed.HasFired() {
+		conn.Close()
+
+		return ErrSessionClosed
+	}
+
+	s.dbConn = conn
+
+	return nil
+}
+
 // startClientInPump pumps messages from the client into the clientIn channel.
 func (s *Session) startClientInPump() error {
 	// NB: only the sender can close the channel; everything that is already in there will be processed
@@ -357,10 +384,11 @@ func (s *Session) startDBProcessing() error {
 // getDBConnnectionParam returns connection parameter with given name from the config.
 func (s *Session) getDBConnnectionParam(name string) (string, error) {
 	s.mu.Lock()
-	defer s.mu.Unlock()
+	params := s.dbConnectionParams
+	s.mu.Unlock()
 
 	// First call to getDBConnnectionParam — parse params from the config
-	if s.dbConnectionParams == nil {
+	if params == nil {
 		// Get() will block until we have a config
 		config, err := s.cfg.Get()
 
@@ -369,12 +397,16 @@ func (s *Session) getDBConnnectionParam(name string) (string, error) {
 		}
 
 		// Parse database URI
-		s.dbConnectionParams, err = pg.ParseDatabaseURI(config.DatabaseURL)
+		params, err = pg.ParseDatabaseURI(config.DatabaseURL)
 
 		if err != nil {
 			return "", err
 		}
+
+		s.mu.Lock()
+		s.dbConnectionParams = params
+		s.mu.Unlock()
 	}
 
-	return s.dbConnectionParams[name], nil
+	return params[name], nil
 }
-- 
2.43.0


From df53bf12f873d27e525190c294e3ade231184472 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:39:51 +0000
Subject: [PATCH 11/20] fix: don't register listeners, sessions or goroutines
 with a closed server

The server was checked for being closed before taking the lock, so that Close
could miss what was being registered and then wait for it in vain (the watchdog
panics after 5s). Refused connections and listeners were never closed.
---
 pkg/server/server.go | 40 ++++++++++++++++++++++++++++++----------
 1 file changed, 30 insertions(+), 10 deletions(-)

diff --git a/pkg/server/server.go b/pkg/server/server.go
index d8c4140..7cee952 100644
--- a/pkg/server/server.go
+++ b/pkg/server/server.go
@@ -112,7 +112,9 @@ func (srv *Server) Start() error {
 			}
 
 			// Serve the new listener
-			srv.do(func() { _ = srv.Serve(ln) })
+			if !srv.do(func() { _ = srv.Serve(ln) }) {
+				ln.Close()
+			}
 
 		// Wait for the server shutdown
 		case <-srv.shutdown.Done():
@@ -132,6 +134,8 @@ func (srv *Server) Serve(ln net.Listener) error {
 
 	if err != nil {
 		log.Errorf("server: error has been occurred while changing listeners: %v", err)
+		ln.Close()
+
 		return err
 	}
 
@@ -166,7 +170,9 @@ func (srv *Server) Serve(ln net.Listener) error {
 		}
 
 		// Serve client in a new goroutine
-		srv.do(func() { _ = srv.ServeConn(conn) })
+		if !srv.do(func() { _ = srv.ServeConn(conn) }) {
+			conn.Close()
+		}
 	}
 }
 
@@ -177,6 +183,8 @@ func (srv *Server) Serve(ln net.Listener) error {
 func (srv *Server) ServeConn(conn net.Conn) error {
 	// Return error if server is closed
 	if srv.shutdown.HasFired() {
+		conn.Close()
+
 		return ErrServerClosed
 	}
 
@@ -192,6 +200,8 @@ func (srv *Server) ServeConn(conn net.Conn) error {
 	err := srv.registerSession(session)
 
 	if err != nil {
+		session.Close()
+
 		return err
 	}
 
@@ -264,14 +274,14 @@ func (srv *Server) Close() error {
 
 // changeListener sets the new Server's listener closing existing one. It can be called concurrently.
 func (srv *Server) changeListener(ln net.Listener) error {
+	srv.mu.Lock()
+	defer srv.mu.Unlock()
+
 	// Refuse to change a listener if Server is closed
 	if srv.shutdown.HasFired() {
 		return ErrServerClosed
 	}
 
-	srv.mu.Lock()
-	defer srv.mu.Unlock()
-
 	if srv.listener != nil {
 		log.Debug("server: closing the old listener")
 
@@ -288,26 +298,36 @@ func (srv *Server) changeListener(ln net.Listener) error {
 }
 
 // do creates a goroutine, but maintains a record of it to ensure that execution completes
-// before the server is shutdown.
-func (srv *Server) do(f func()) {
+// before the server is shutdown. It returns false if the server is closed already.
+func (srv *Server) do(f func()) bool {
+	srv.mu.Lock()
+	defer srv.mu.Unlock()
+
+	// Close doesn't wait for goroutines created after that
+	if srv.shutdown.HasFired() {
+		return false
+	}
+
 	srv.wg.Add(1)
 
 	go func() {
 		defer srv.wg.Done()
 		f()
 	}()
+
+	return true
 }
 
 // registerSession adds the given session to the sessions map. It can be called concurrently.
 func (srv *Server) registerSession(s *Session) error {
+	srv.mu.Lock()
+	defer srv.mu.Unlock()
+
 	// Refuse to register a session if Server is closed
 	if srv.shutdown.HasFired() {
 		return ErrServerClosed
 	}
 
-	srv.mu.Lock()
-	defer srv.mu.Unlock()
-
 	if srv.sessions == nil {
 		srv.sessions = make(map[*Session]struct{})
 	}
-- 
2.43.0


From c1a1ddb0886c6f6f43ae51df31ac2c6b0cc5b6e5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:39:53 +0000
Subject: [PATCH 12/20] fix: unsubscribe from config updates before closing
 their channel

A config change after the server has been closed was sent to the closed channel.
---
 pkg/server/server.go | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/pkg/server/server.go b/pkg/server/server.go
index 7cee952..6fc7baf 100644
--- a/pkg/server/server.go
+++ b/pkg/server/server.go
@@ -94,6 +94,9 @@ func (srv *Server) Start() error {
 		return err
 	}
 
+	// NB: this must happen before the channel is closed
+	defer srv.config.Unsubscribe(serverConfigurationUpdates)
+
 	// For debugging purposes
 	defer log.Debug("server: Start() loop finished")
 
-- 
2.43.0


From b6be6fa45a49d2f0bf2e439fcf71cc19ac0991f1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:39:55 +0000
Subject: [PATCH 13/20] fix: change listeners in the order of config changes

Each new listener was installed by a goroutine of its own, so after two quick
changes the server could end up on the first of the two addresses.
---
 pkg/server/server.go | 17 +++++++++++++++--
 1 file changed, 15 insertions(+), 2 deletions(-)

diff --git a/pkg/server/server.go b/pkg/server/server.go
index 6fc7baf..940b134 100644
--- a/pkg/server/server.go
+++ b/pkg/server/server.go
@@ -114,11 +114,19 @@ func (srv *Server) Start() error {
 				continue
 			}
 
-			// Serve the new listener
-			if !srv.do(func() { _ = srv.Serve(ln) }) {
+			// Replace the listener right here: consequent changes must take effect in the same order
+			err = srv.changeListener(ln)
+
+			if err != nil {
+				log.Errorf("server: error has been occurred while changing listeners: %v", err)
 				ln.Close()
+
+				continue
 			}
 
+			// Serve the new listener
+			srv.do(func() { _ = srv.acceptConns(ln) })
+
 		// Wait for the server shutdown
 		case <-srv.shutdown.Done():
 			return ErrServerClosed
@@ -142,6 +150,11 @@ func (srv *Server) Serve(ln net.Listener) error {
 		return err
 	}
 
+	return srv.acceptConns(ln)
+}
+
+// acceptConns calls ServeConn for every client connection accepted from the listener.
+func (srv *Server) acceptConns(ln net.Listener) error {
 	log.Info("server: ready to accept client connections")
 
 	// Notify tests that server is listening
-- 
2.43.0


From 80c2575dc67e9fe780f49fb0436ae1fd13802bd4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:41:58 +0000
Subject: [PATCH 14/20] fix: config_distributor: never wait for subscribers
 while holding the mutex

Get deadlocked when a config arrived between the snapshot and its own
subscription, or when a second update followed the first one quickly. A slow
subscriber blocked Get, Unsubscribe and Close.
---
 pkg/server/config_distributor.go | 153 ++++++++++++++++++++++---------
 1 file changed, 110 insertions(+), 43 deletions(-)

diff --git a/pkg/server/config_distributor.go b/pkg/server/config_distributor.go
index 4a5c9fa..f917112 100644
--- a/pkg/server/config_distributor.go
+++ b/pkg/server/config_distributor.go
@@ -33,6 +33,9 @@ type ConfigDistributor struct {
 	// Fired after config monitoring goroutine is started
 	started *Event
 
+	// Fired after the first Config is received
+	ready *Event
+
 	// Fired after Close is called
 	closed *Event
 
@@ -43,7 +46,19 @@ type ConfigDistributor struct {
 	lastConfig *Config
 
 	// Subscriptions to Config updates
-	subscriptions map[chan<- *Config][]ConfigChangedCheckFn
+	subscriptions map[chan<- *Config]*configSubscription
+}
+
+// configSubscription is a subscription of a single channel to Config updates.
+type configSubscription struct {
+	// Held while the channel is being sent to
+	mu sync.Mutex
+
+	// Channel is only notified if one of these returns true (or there are none)
+	checks []ConfigChangedCheckFn
+
+	// Fired when subscription is no longer active
+	cancelled *Event
 }
 
 var (
@@ -58,6 +73,7 @@ func NewConfigDistributor(configChan <-chan *Config) *ConfigDistributor {
 	return &ConfigDistributor{
 		source:  configChan,
 		started: NewEvent(),
+		ready:   NewEvent(),
 		closed:  NewEvent(),
 	}
 }
@@ -90,40 +106,67 @@ func (p *ConfigDistributor) Get() (*Config, error) {
 // Subscribe subscribes given channel to configuration updates.
 // If checks are specified, new config will be sent to the channel only if one of them returns true.
 func (p *ConfigDistributor) Subscribe(ch chan<- *Config, checks ...ConfigChangedCheckFn) error {
-	// Check that distributor is still active
-	if p.closed.HasFired() {
-		return ErrConfigDistributorClosed
+	sub := &configSubscription{checks: checks, cancelled: NewEvent()}
+
+	// Hold back updates until the current config is sent
+	sub.mu.Lock()
+	defer sub.mu.Unlock()
+
+	currentConfig, prevSub, err := p.register(ch, sub)
+
+	if err != nil {
+		return err
 	}
 
+	// Channel could be subscribed already — replace the subscription
+	if prevSub != nil {
+		prevSub.cancel()
+	}
+
+	// Send current config immediately
+	if currentConfig != nil && p.shouldSendUpdatedConfig(checks, nil, currentConfig) {
+		p.send(ch, sub, currentConfig)
+	}
+
+	return nil
+}
+
+// register adds the subscription and starts the monitoring goroutine. It returns current config (if any) and
+// the previous subscription of the same channel (if any).
+func (p *ConfigDistributor) register(ch chan<- *Config, sub *configSubscription) (*Config, *configSubscription, error) {
 	p.mu.Lock()
 	defer p.mu.Unlock()
 
-	// Send current config immediately even before we registered a new subscription
-	if p.lastConfig != nil && p.shouldSendUpdatedConfig(checks, nil, p.lastConfig) {
-		ch <- p.lastConfig
+	// Check that distributor is still active
+	if p.closed.HasFired() {
+		return nil, nil, ErrConfigDistributorClosed
 	}
 
-	// Register subscription
 	if p.subscriptions == nil {
-		p.subscriptions = make(map[chan<- *Config][]ConfigChangedCheckFn)
+		p.subscriptions = make(map[chan<- *Config]*configSubscription)
 	}
 
-	p.subscriptions[ch] = checks
+	prevSub := p.subscriptions[ch]
+	p.subscriptions[ch] = sub
 
 	// Start monitoring goroutine
 	if p.started.Fire() {
 		go p.monitorConfig()
 	}
 
-	return nil
+	return p.lastConfig, prevSub, nil
 }
 
-// Unsubscribe cancels subscription for the given channel.
+// Unsubscribe cancels subscription for the given channel. Nothing is sent to the channel after that.
 func (p *ConfigDistributor) Unsubscribe(ch chan<- *Config) {
 	p.mu.Lock()
-	defer p.mu.Unlock()
+	sub := p.subscriptions[ch]
+	delete(p.subscriptions, ch)
+	p.mu.Unlock()
 
-	p.unsubscribeLocked(ch)
+	if sub != nil {
+		sub.cancel()
+	}
 }
 
 // Close stops the monitoring goroutine and cancels all subscriptions.
@@ -133,36 +176,37 @@ func (p *ConfigDistributor) Close() {
 	}
 
 	p.mu.Lock()
-	defer p.mu.Unlock()
+	subscriptions := p.subscriptions
+	p.subscriptions = nil
+	p.mu.Unlock()
 
-	for ch := range p.subscriptions {
-		p.unsubscribeLocked(ch)
+	for _, sub := range subscriptions {
+		sub.cancel()
 	}
 }
 
-// unsubscribeLocked unsubscribes the channel without locking the mutex.
-func (p *ConfigDistributor) unsubscribeLocked(ch chan<- *Config) {
-	delete(p.subscriptions, ch)
+// cancel stops notifications and waits for the one in progress to be interrupted.
+func (s *configSubscription) cancel() {
+	s.cancelled.Fire()
+
+	s.mu.Lock()
+	defer s.mu.Unlock()
 }
 
-// waitForNextConfig waits for the next received Config update from the source and then returns it.
+// waitForNextConfig waits for the first Config update from the source and then returns current config.
 func (p *ConfigDistributor) waitForNextConfig() (*Config, error) {
-	nextConfigChan := make(chan *Config)
-	defer close(nextConfigChan)
-
-	// Subscribe to ourselves for the duration of this method
-	err := p.Subscribe(nextConfigChan)
-
-	if err != nil {
-		return nil, err
+	// Start monitoring goroutine
+	if p.started.Fire() {
+		go p.monitorConfig()
 	}
 
-	defer p.Unsubscribe(nextConfigChan)
-
 	// Wait for the config or Cancel signal
 	select {
-	case config := <-nextConfigChan:
-		return config, nil
+	case <-p.ready.Done():
+		p.mu.RLock()
+		defer p.mu.RUnlock()
+
+		return p.lastConfig, nil
 
 	case <-p.closed.Done():
 		return nil, ErrConfigDistributorClosed
@@ -186,16 +230,22 @@ func (p *ConfigDistributor) monitorConfig() {
 				return
 			}
 
-			// Update lastConfig and notify subscribers
+			// Update lastConfig and notify subscribers.
+			// NB: subscribers can be slow, thus we cannot wait for them while holding the mutex.
+			subscriptions := make(map[chan<- *Config]*configSubscription)
+
 			p.mu.Lock()
-			{
-				oldConfig := p.lastConfig
-				p.lastConfig = newConfig
+			oldConfig := p.lastConfig
+			p.lastConfig = newConfig
 
-				p.notifySubscribersLocked(oldConfig, newConfig)
+			for ch, sub := range p.subscriptions {
+				subscriptions[ch] = sub
 			}
 			p.mu.Unlock()
 
+			p.ready.Fire()
+			p.notifySubscribers(subscriptions, oldConfig, newConfig)
+
 		// Stop the loop if distributor is closed
 		case <-p.closed.Done():
 			return
@@ -203,15 +253,32 @@ func (p *ConfigDistributor) monitorConfig() {
 	}
 }
 
-// notifySubscribersLocked notifies subscribers about config changes.
-func (p *ConfigDistributor) notifySubscribersLocked(oldConfig, newConfig *Config) {
-	for ch, checks := range p.subscriptions {
-		if p.shouldSendUpdatedConfig(checks, oldConfig, newConfig) {
-			ch <- newConfig
+// notifySubscribers notifies subscribers about config changes.
+func (p *ConfigDistributor) notifySubscribers(
+	subscriptions map[chan<- *Config]*configSubscription, oldConfig, newConfig *Config,
+) {
+	for ch, sub := range subscriptions {
+		if p.shouldSendUpdatedConfig(sub.checks, oldConfig, newConfig) {
+			sub.mu.Lock()
+			p.send(ch, sub, newConfig)
+			sub.mu.Unlock()
 		}
 	}
 }
 
+// send sends config to the subscribed channel unless the subscription is cancelled. It requires sub.mu.
+func (p *ConfigDistributor) send(ch chan<- *Config, sub *configSubscription, config *Config) {
+	// NB: the channel could be closed after that
+	if sub.cancelled.HasFired() {
+		return
+	}
+
+	select {
+	case ch <- config:
+	case <-sub.cancelled.Done():
+	}
+}
+
 // shouldSendUpdatedConfig runs the subscription checks to determine whether or not
 // subscribed channels should receive update.
 func (p *ConfigDistributor) shouldSendUpdatedConfig(checks []ConfigChangedCheckFn, oldConfig, newConfig *Config) bool {
-- 
2.43.0


From 263337e2739992a0ef9018646f61271439e9cbf7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:42:35 +0000
Subject: [PATCH 15/20] fix: file_watcher: release everything when watching
 fails

A failed Watch leaked the events goroutine together with the inotify
descriptor and raced on the error variable; the runtime error was never
logged (wrong variable); StopWatch panicked before Watch or when called twice.
---
 pkg/cli/file_watcher.go | 148 +++++++++++++++++-----------------------
 1 file changed, 62 insertions(+), 86 deletions(-)

diff --git a/pkg/cli/file_watcher.go b/pkg/cli/file_watcher.go
index 6fced1e..31ad20b 100644
--- a/pkg/cli/file_watcher.go
+++ b/pkg/cli/file_watcher.go
@@ -23,116 +23,92 @@ type fileWatcher struct {
 	OnRemove func() // Called when the file is removed from the the disk.
 
 	watchDone chan bool // Channel to notify watcher to stop watching.
+	stopOnce  sync.Once // Guards watchDone against closing it twice.
 }
 
 // newFileWatcher creates new fileWatcher.
 func newFileWatcher(path string) *fileWatcher {
-	return &fileWatcher{Path: path}
+	return &fileWatcher{Path: path, watchDone: make(chan bool)}
 }
 
 // Watch starts watching for the file changes on the disk.
-// nolint:gocognit
 func (w *fileWatcher) Watch() error {
-	// We have 2 nested goroutines in this function.
-	// We use watcherError variable to pull any errors from them into the calling gorouting.
-	var watcherError error = nil
+	watcher, err := fsnotify.NewWatcher()
 
-	// Initialization sync group. We have to wait until the watcher starts the watching to
-	// return any possible errors.
-	initWG := sync.WaitGroup{}
-	initWG.Add(1)
+	if err != nil {
+		return err
+	}
 
-	// This goroutine starts and closes fsnotify watcher
+	// Start the watcher
+	err = watcher.Add(w.Path)
+
+	if err != nil {
+		watcher.Close()
+		return err
+	}
+
+	// This goroutine handles FS events and closes fsnotify watcher
 	go func() {
-		watcher, err := fsnotify.NewWatcher()
+		defer watcher.Close()
 
+		err := w.handleEvents(watcher)
+
+		// We are not in the context of calling goroutine anymore so we cannot just return error
+		// and have to print the error by ourselves.
 		if err != nil {
-			watcherError = err
-			initWG.Done()
-			return
+			log.Errorf("file watcher error: %v\n", err)
 		}
+	}()
 
-		defer watcher.Close()
+	return nil
+}
 
-		// Event loop sync group
-		eventsWG := sync.WaitGroup{}
-		eventsWG.Add(1)
-
-		// Channel to notify handler to stop
-		w.watchDone = make(chan bool)
-
-		// FS events handler
-		go func() {
-			// Continue execution of the parent goroutine
-			defer eventsWG.Done()
-
-			for {
-				select {
-				// fsnotify watcher event
-				case event, ok := <-watcher.Events:
-					// 'Events' channel is closed
-					if !ok {
-						return
-					}
-
-					// Run the callback
-					switch {
-					case event.Op&fsnotify.Create != 0:
-						if w.OnCreate != nil {
-							w.OnCreate()
-						}
-
-					case event.Op&fsnotify.Write != 0:
-						if w.OnWrite != nil {
-							w.OnWrite()
-						}
-
-					case event.Op&fsnotify.Remove != 0:
-						if w.OnRemove != nil {
-							w.OnRemove()
-						}
-					}
-
-				// fsnotify watcher error
-				case err, ok := <-watcher.Errors:
-					// 'Errors' channel is open
-					if ok {
-						watcherError = err
-					}
-
-					return
-
-				// StopWatch has been called
-				case <-w.watchDone:
-					return
-				}
+// handleEvents delivers FS events until StopWatch is called or the watcher fails.
+func (w *fileWatcher) handleEvents(watcher *fsnotify.Watcher) error {
+	for {
+		select {
+		// fsnotify watcher event
+		case event, ok := <-watcher.Events:
+			// 'Events' channel is closed
+			if !ok {
+				return nil
 			}
-		}()
 
-		// Start the watcher
-		watcherError = watcher.Add(w.Path)
+			// Run the callback
+			switch {
+			case event.Op&fsnotify.Create != 0:
+				if w.OnCreate != nil {
+					w.OnCreate()
+				}
 
-		// Exit from Watch
-		initWG.Done()
+			case event.Op&fsnotify.Write != 0:
+				if w.OnWrite != nil {
+					w.OnWrite()
+				}
 
-		// Event loop
-		eventsWG.Wait()
+			case event.Op&fsnotify.Remove != 0:
+				if w.OnRemove != nil {
+					w.OnRemove()
+				}
+			}
 
-		// We are not in the context of calling goroutine anymore so we cannot just return error
-		// and have to print the error by ourselves.
-		if watcherError != nil {
-			log.Errorf("file watcher error: %v\n", err)
-		}
-	}()
+		// fsnotify watcher error
+		case err, ok := <-watcher.Errors:
+			// 'Errors' channel is closed
+			if !ok {
+				return nil
+			}
 
-	// Wait for watcher to initialize
-	initWG.Wait()
+			return err
 
-	// Return initialization error if any
-	return watcherError
+		// StopWatch has been called
+		case <-w.watchDone:
+			return nil
+		}
+	}
 }
 
-// StopWatch stops the file watcher.
+// StopWatch stops the file watcher. It's safe to call it more than once.
 func (w *fileWatcher) StopWatch() {
-	close(w.watchDone)
+	w.stopOnce.Do(func() { close(w.watchDone) })
 }
-- 
2.43.0


From c7bd27bb818e33ec3f45067e5957d4604d8bcb73 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:42:36 +0000
Subject: [PATCH 16/20] fix: refuse config without the listen address

An empty (e.g. just truncated) config file was accepted and the server moved
to a random port of every interface.
---
 pkg/cli/read_server_config.go | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/pkg/cli/read_server_config.go b/pkg/cli/read_server_config.go
index e26a414..7e045c7 100644
--- a/pkg/cli/read_server_config.go
+++ b/pkg/cli/read_server_config.go
@@ -1,6 +1,7 @@
 package cli
 
 import (
+	"errors"
 	"path/filepath"
 
 	"github.com/BurntSushi/toml"
@@ -25,5 +26,10 @@ func readServerConfig(path string) (*server.Config, error) {
 		return nil, err
 	}
 
+	// NB: this also protects us from partially written files
+	if config.Listen == "" {
+		return nil, errors.New("listen address is not set")
+	}
+
 	return config, nil
 }
-- 
2.43.0


From 2470f6b84fed538056e0a363b177290b2863eec3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:42:38 +0000
Subject: [PATCH 17/20] fix: report errors interrupting the OID table mapping
 query

---
 pkg/pgmeta/inspector.go | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/pkg/pgmeta/inspector.go b/pkg/pgmeta/inspector.go
index 309bbb0..be884b1 100644
--- a/pkg/pgmeta/inspector.go
+++ b/pkg/pgmeta/inspector.go
@@ -86,6 +86,13 @@ func (i *Inspector) OIDTableMapping() (map[oid.Oid]Table, error) {
 		mapping[tableOid] = table
 	}
 
+	// Iteration could be interrupted by an error
+	err = rows.Err()
+
+	if err != nil {
+		return nil, err
+	}
+
 	return mapping, nil
 }
 
-- 
2.43.0


From 4b93823060f61befb211aadb694f7e498156f941 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:43:30 +0000
Subject: [PATCH 18/20] fix: default database is the user that is actually used

A user given as query parameter and an empty database or user were ignored
when choosing the default database.
---
 pkg/pg/dsn.go | 15 +++++++++------
 1 file changed, 9 insertions(+), 6 deletions(-)

diff --git a/pkg/pg/dsn.go b/pkg/pg/dsn.go
index 62cc167..9bf47ba 100644
--- a/pkg/pg/dsn.go
+++ b/pkg/pg/dsn.go
@@ -28,7 +28,9 @@ func ParseDatabaseURI(connString string) (ConnectionParams, error) {
 
 	// Username and password
 	if url.User != nil {
-		settings["user"] = url.User.Username()
+		if username := url.User.Username(); username != "" {
+			settings["user"] = username
+		}
 
 		if password, present := url.User.Password(); present {
 			settings["password"] = password
@@ -48,15 +50,17 @@ func ParseDatabaseURI(connString string) (ConnectionParams, error) {
 	// Database name
 	if database := strings.TrimLeft(url.Path, "/"); database != "" {
 		settings["database"] = database
-	} else {
-		// Default is the same as database user
-		settings["database"] = settings["user"]
 	}
 
 	for k, v := range url.Query() {
 		settings[k] = v[0]
 	}
 
+	// Default is the same as database user
+	if settings["database"] == "" {
+		settings["database"] = settings["user"]
+	}
+
 	return settings, nil
 }
 
@@ -67,10 +71,9 @@ func defaultConnectionSettings() ConnectionParams {
 		"port": "5432",
 	}
 
-	// Use local OS username as both default DB user and DB name
+	// Use local OS username as default DB user
 	if user, err := user.Current(); err == nil {
 		settings["user"] = user.Username
-		settings["database"] = user.Username
 	}
 
 	return settings
-- 
2.43.0


From 3535dc590c10287e6c67864ceec164b602dbac9f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:43:45 +0000
Subject: [PATCH 19/20] fix: report malformed query parameters of the database
 URI

---
 pkg/pg/dsn.go | 13 ++++++++++++-
 1 file changed, 12 insertions(+), 1 deletion(-)

diff --git a/pkg/pg/dsn.go b/pkg/pg/dsn.go
index 9bf47ba..11ad9a2 100644
--- a/pkg/pg/dsn.go
+++ b/pkg/pg/dsn.go
@@ -52,7 +52,13 @@ func ParseDatabaseURI(connString string) (ConnectionParams, error) {
 		settings["database"] = database
 	}
 
-	for k, v := range url.Query() {
+	query, err := parseQuery(url.RawQuery)
+
+	if err != nil {
+		return nil, err
+	}
+
+	for k, v := range query {
 		settings[k] = v[0]
 	}
 
@@ -64,6 +70,11 @@ func ParseDatabaseURI(connString string) (ConnectionParams, error) {
 	return settings, nil
 }
 
+// parseQuery parses query parameters. As opposed to URL.Query it doesn't ignore malformed ones.
+func parseQuery(query string) (url.Values, error) {
+	return url.ParseQuery(query)
+}
+
 // defaultConnectionSettings returns PostgreSQL implicit default connection settings.
 func defaultConnectionSettings() ConnectionParams {
 	settings := ConnectionParams{
-- 
2.43.0


From 27c18c0079fbcb8956c2cf71435f91aa879a3fc6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:38:10 +0000
Subject: [PATCH 20/20] fix: keep config subscriptions registered until they
 are cancelled

Close removed all subscriptions before it cancelled them, so that a concurrent Unsubscribe returned
while an update was still being sent to the channel, which its owner may close right after.
---
 pkg/server/config_distributor.go | 70 +++++++++++++++++++++-----------
 1 file changed, 46 insertions(+), 24 deletions(-)

diff --git a/pkg/server/config_distributor.go b/pkg/server/config_distributor.go
index f917112..8d61210 100644
--- a/pkg/server/config_distributor.go
+++ b/pkg/server/config_distributor.go
@@ -114,13 +114,15 @@ func (p *ConfigDistributor) Subscribe(ch chan<- *Config, checks ...ConfigChanged
 
 	currentConfig, prevSub, err := p.register(ch, sub)
 
-	if err != nil {
-		return err
+	// Channel could be subscribed already — replace the subscription
+	for prevSub != nil {
+		p.cancel(ch, prevSub)
+
+		currentConfig, prevSub, err = p.register(ch, sub)
 	}
 
-	// Channel could be subscribed already — replace the subscription
-	if prevSub != nil {
-		prevSub.cancel()
+	if err != nil {
+		return err
 	}
 
 	// Send current config immediately
@@ -131,8 +133,8 @@ func (p *ConfigDistributor) Subscribe(ch chan<- *Config, checks ...ConfigChanged
 	return nil
 }
 
-// register adds the subscription and starts the monitoring goroutine. It returns current config (if any) and
-// the previous subscription of the same channel (if any).
+// register adds the subscription and starts the monitoring goroutine. It returns current config (if any).
+// If the channel is subscribed already, register does nothing but returns the present subscription.
 func (p *ConfigDistributor) register(ch chan<- *Config, sub *configSubscription) (*Config, *configSubscription, error) {
 	p.mu.Lock()
 	defer p.mu.Unlock()
@@ -146,7 +148,10 @@ func (p *ConfigDistributor) register(ch chan<- *Config, sub *configSubscription)
 		p.subscriptions = make(map[chan<- *Config]*configSubscription)
 	}
 
-	prevSub := p.subscriptions[ch]
+	if prevSub := p.subscriptions[ch]; prevSub != nil {
+		return nil, prevSub, nil
+	}
+
 	p.subscriptions[ch] = sub
 
 	// Start monitoring goroutine
@@ -154,18 +159,17 @@ func (p *ConfigDistributor) register(ch chan<- *Config, sub *configSubscription)
 		go p.monitorConfig()
 	}
 
-	return p.lastConfig, prevSub, nil
+	return p.lastConfig, nil, nil
 }
 
 // Unsubscribe cancels subscription for the given channel. Nothing is sent to the channel after that.
 func (p *ConfigDistributor) Unsubscribe(ch chan<- *Config) {
-	p.mu.Lock()
+	p.mu.RLock()
 	sub := p.subscriptions[ch]
-	delete(p.subscriptions, ch)
-	p.mu.Unlock()
+	p.mu.RUnlock()
 
 	if sub != nil {
-		sub.cancel()
+		p.cancel(ch, sub)
 	}
 }
 
@@ -175,22 +179,40 @@ func (p *ConfigDistributor) Close() {
 		return
 	}
 
-	p.mu.Lock()
-	subscriptions := p.subscriptions
-	p.subscriptions = nil
-	p.mu.Unlock()
+	for ch, sub := range p.currentSubscriptions() {
+		p.cancel(ch, sub)
+	}
+}
+
+// currentSubscriptions returns a copy of the list of subscriptions.
+func (p *ConfigDistributor) currentSubscriptions() map[chan<- *Config]*configSubscription {
+	p.mu.RLock()
+	defer p.mu.RUnlock()
 
-	for _, sub := range subscriptions {
-		sub.cancel()
+	subscriptions := make(map[chan<- *Config]*configSubscription, len(p.subscriptions))
+
+	for ch, sub := range p.subscriptions {
+		subscriptions[ch] = sub
 	}
+
+	return subscriptions
 }
 
-// cancel stops notifications and waits for the one in progress to be interrupted.
-func (s *configSubscription) cancel() {
-	s.cancelled.Fire()
+// cancel stops notifications, waits for the one in progress to be interrupted and removes the subscription.
+// NB: it must be removed last, otherwise concurrent Unsubscribe would not wait for the notification in progress.
+func (p *ConfigDistributor) cancel(ch chan<- *Config, sub *configSubscription) {
+	sub.cancelled.Fire()
 
-	s.mu.Lock()
-	defer s.mu.Unlock()
+	// Nobody is sending to the channel after that
+	sub.mu.Lock()
+	defer sub.mu.Unlock()
+
+	p.mu.Lock()
+	defer p.mu.Unlock()
+
+	if p.subscriptions[ch] == sub {
+		delete(p.subscriptions, ch)
+	}
 }
 
 // waitForNextConfig waits for the first Config update from the source and then returns current config.
-- 
2.43.0

