From b8ebe133573a491f7b94ac8b909dd74581ca4caf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:42:24 +0000
Subject: [PATCH 01/32] fix: RFC 5425 frame length that is negative or
 overflows no longer panics the decoder

PrefixStrip took any length strconv.Atoi accepts: '-30 ...' and lengths near
MaxInt produced a negative end offset and a slice bounds panic on remote input.
---
 transport.go | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/transport.go b/transport.go
index abeb88d..20dd281 100644
--- a/transport.go
+++ b/transport.go
@@ -87,18 +87,18 @@ func (t tRFC5425) PrefixStrip(buffer []byte, atEOF bool) (data, rest []byte, err
 	}
 
 	lenMsg, err := strconv.Atoi(string(buffer[0:sepPos]))
-	if err != nil {
+	if err != nil || lenMsg < 0 {
 		return nil, nil, ErrTransportInvHeader
 	}
 
 	start := sepPos + 1
-	lenBuff := start + lenMsg
-	if len(buffer) < lenBuff {
+	if len(buffer)-start < lenMsg {
 		if atEOF {
 			return buffer[start:], nil, ErrTransportIncomplete
 		}
 		return nil, nil, nil
 	}
+	lenBuff := start + lenMsg
 
 	return buffer[start:lenBuff], buffer[lenBuff:], nil
 }
-- 
2.43.0


From f6e84b71884419cc07ab468a6f961a3ce3784d9d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:42:52 +0000
Subject: [PATCH 02/32] fix: Parse delimits the frame before decoding it and
 scans SD-ELEMENTs by their quoting

With the LF and zero terminated transports Parse searched separators across
frame boundaries: a message with no text panicked (data[-1:]) or swallowed the
next one, a malformed frame blocked the connection, and an unterminated last
message was lost. A ']' in the text, an SD-ELEMENT without parameter and a
structured data that is neither '-' nor '[...]' were mishandled as well.
---
 message-immutable.go | 131 ++++++++++++++++---------------------------
 transport.go         |   2 +-
 2 files changed, 49 insertions(+), 84 deletions(-)

diff --git a/message-immutable.go b/message-immutable.go
index 3cd99db..0cfbd23 100644
--- a/message-immutable.go
+++ b/message-immutable.go
@@ -140,12 +140,10 @@ func (msg MessageImmutable) WriteTo(w io.Writer) (n int64, err error) {
 // Parse allow to parse a []byte and decode one ImmutableMessage
 func Parse(data []byte, transport Transport, atEOF bool) (returnMsg MessageImmutable, rest []byte, mainErr error) {
 	sepSp := []byte{' '}
-	sepBrk := []byte{']'}
 
 	if transport != nil {
-		data, rest, mainErr = transport.PrefixStrip(data, atEOF)
-		//log.Printf("P {%q} {%q} %v\n", data, rest, mainErr)
-		if data == nil && rest == nil && mainErr == nil {
+		data, rest, mainErr = splitFrame(transport, data, atEOF)
+		if data == nil {
 			return
 		}
 	}
@@ -175,73 +173,54 @@ func Parse(data []byte, transport Transport, atEOF bool) (returnMsg MessageImmut
 		return
 	}
 
-	if len(data[begin:]) == 1 {
-		if data[begin] != '-' {
-			mainErr = dispatchError(mainErr, ParseError{data, begin, "empty field expected"})
-			return
+	end := begin
+	if data[begin] == '-' {
+		end = begin + 1
+		msg.index = append(msg.index, end)
+	} else {
+		for end < len(data) && data[end] == '[' {
+			next := sdElementEnd(data, end)
+			if next < 0 {
+				mainErr = dispatchError(mainErr, ParseError{data, end, "unterminated structured data"})
+				return
+			}
+			msg.index = append(msg.index, next)
+			end = next
 		}
-		msg.index = append(msg.index, begin+2)
-
-		returnMsg, data, rest, mainErr = parseReturn(msg, transport, atEOF, data, rest)
-		return
 	}
 
-	end, err := searchNextSep(data[begin:], sepSp)
-	if err != nil {
-		mainErr = dispatchError(mainErr, err)
+	switch {
+	case end == begin:
+		mainErr = dispatchError(mainErr, ParseError{data, begin, "structured data expected"})
 		return
-	}
 
-	if end == 1 {
-		if data[begin] != '-' {
-			mainErr = dispatchError(mainErr, ParseError{data, begin, "empty structured data expected"})
-			return
-		}
-
-		msg.index = append(msg.index, begin+1)
-		msg.text = begin + 2
-		returnMsg, data, rest, mainErr = parseReturn(msg, transport, atEOF, data, rest)
+	case end < len(data) && data[end] != ' ':
+		mainErr = dispatchError(mainErr, ParseError{data, end, "space expected after structured data"})
 		return
-	}
 
-	t := begin
-	for len(data[t:]) > 0 {
-		end, err = searchNextSep(data[t:], sepBrk)
-
-		switch err {
-		case nil:
-			if data[t+end-1] == '\\' {
-				t = t + end + 1
-				continue
-			}
-
-			if data[t+end-1] == '"' {
-				msg.index = append(msg.index, t+end+1)
-				begin = t + end + 1
-				t = begin
-				if len(data) <= begin {
-					returnMsg, data, rest, mainErr = parseReturn(msg, transport, atEOF, data, rest)
-					return
-				}
-				continue
-			}
-
-			mainErr = dispatchError(mainErr, ParseError{data, t + end - 1, `\\ or " expected`})
-			return
-
-		case ErrPosNotFound:
-			msg.text = begin + 1
+	case end < len(data):
+		msg.text = end + 1
+	}
 
-			returnMsg, data, rest, mainErr = parseReturn(msg, transport, atEOF, data, rest)
-			return
+	returnMsg = msg
+	return
+}
 
-		default:
-			mainErr = dispatchError(mainErr, err)
-			return
+// sdElementEnd returns the position following the SD-ELEMENT that begins at start, or -1.
+// a ']' ends the element unless it is in a quoted value; in a quoted value '\\' escapes the next byte
+func sdElementEnd(data []byte, start int) int {
+	quoted := false
+	for i := start + 1; i < len(data); i++ {
+		switch {
+		case quoted && data[i] == '\\':
+			i++
+		case data[i] == '"':
+			quoted = !quoted
+		case !quoted && data[i] == ']':
+			return i + 1
 		}
 	}
-	mainErr = dispatchError(mainErr, ErrImpossible)
-	return
+	return -1
 }
 
 func dispatchError(mainErr, err error) (returnErr error) {
@@ -254,32 +233,18 @@ func dispatchError(mainErr, err error) (returnErr error) {
 	return
 }
 
-func parseReturn(msg MessageImmutable, transport Transport, atEOF bool, oData, oRest []byte) (returnMsg MessageImmutable, data, rest []byte, mainErr error) {
-	data = oData
-	rest = oRest
-
-	if transport == nil {
-		returnMsg = msg
+// splitFrame extracts the bytes of the first frame of buffer
+// data is nil when there is no frame to decode
+func splitFrame(transport Transport, buffer []byte, atEOF bool) (data, rest []byte, err error) {
+	data, rest, err = transport.PrefixStrip(buffer, atEOF)
+	if data == nil || rest != nil || err != nil {
 		return
 	}
 
-	if rest != nil {
-		returnMsg = msg
-		return
+	data, rest, err = transport.SuffixStrip(data, atEOF)
+	if rest == nil && !atEOF {
+		// the terminator is not yet received
+		return nil, nil, err
 	}
-
-	data, rest, mainErr = transport.SuffixStrip(data[msg.text:], atEOF)
-	//log.Printf("RET\t{%q} {%q} %v\n", data, rest, mainErr)
-	if data == nil && rest == nil && mainErr == nil {
-		return
-	}
-
-	end := msg.text + len(data)
-	if len(msg.buffer) > end {
-		msg.buffer = msg.buffer[:end]
-
-	}
-
-	returnMsg = msg
 	return
 }
diff --git a/transport.go b/transport.go
index 20dd281..acccd00 100644
--- a/transport.go
+++ b/transport.go
@@ -77,7 +77,7 @@ func (t tRFC5425) PrefixStrip(buffer []byte, atEOF bool) (data, rest []byte, err
 		return nil, nil, nil
 	}
 
-	if len(buffer) < 20 {
+	if len(buffer) < 20 && !atEOF {
 		return nil, nil, nil
 	}
 
-- 
2.43.0


From 95d3188b86ddaa8f821e9aa3517ca95dad56c3af Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:42:56 +0000
Subject: [PATCH 03/32] fix: Parse reports a malformed PRI instead of decoding
 it as kern.emerg

---
 message-immutable.go | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/message-immutable.go b/message-immutable.go
index 0cfbd23..3348f76 100644
--- a/message-immutable.go
+++ b/message-immutable.go
@@ -173,6 +173,11 @@ func Parse(data []byte, transport Transport, atEOF bool) (returnMsg MessageImmut
 		return
 	}
 
+	if err := new(Priority).Unmarshal5424(data[:msg.index[0]]); err != nil {
+		mainErr = dispatchError(mainErr, err)
+		return
+	}
+
 	end := begin
 	if data[begin] == '-' {
 		end = begin + 1
-- 
2.43.0


From a713b7b554d60313f3dcb8cb44ce78c87c4ea3dd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:42:56 +0000
Subject: [PATCH 04/32] fix: Priority.String no longer panics on facilities 24
 to 31

A received '<200>1' decodes to such a priority.
---
 priority.go | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/priority.go b/priority.go
index 7682fab..91d4661 100644
--- a/priority.go
+++ b/priority.go
@@ -130,7 +130,11 @@ func (p Priority) Severity() Priority {
 }
 
 func (p Priority) String() string {
-	return facilityString[p.Facility()>>3] + "." + severityString[p.Severity()]
+	f := int(p.Facility() >> 3)
+	if f >= len(facilityString) {
+		return "-." + severityString[p.Severity()]
+	}
+	return facilityString[f] + "." + severityString[p.Severity()]
 }
 
 // Marshal5424 encode the priority to Syslog5424 format
-- 
2.43.0


From cea9e768b72f6b56da393732e48c743a84c9c7d5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:43:10 +0000
Subject: [PATCH 05/32] fix: Unmarshal5424 rejects a PRI that is no facility
 and severity

'<999>1' was accepted and encoded again as '<199>1'.
---
 priority.go | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/priority.go b/priority.go
index 91d4661..1b6c5e4 100644
--- a/priority.go
+++ b/priority.go
@@ -185,6 +185,9 @@ func (p *Priority) Unmarshal5424(d []byte) error {
 		}
 		tp = tp*10 + int(v-'0')
 	}
+	if tp > facilityMask|severityMask {
+		return errors.New("bad format : " + string(d))
+	}
 	*p = Priority(tp)
 
 	return nil
-- 
2.43.0


From bff057e8a1d22f860befa3fc2ddfb78535a8c08f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:43:45 +0000
Subject: [PATCH 06/32] fix: the connection reader stops on errors, keeps going
 after a bad frame and never reads into no room

A frame that reached the end of the buffer with more than 500 bytes pending made
Read get an empty slice for ever (busy loop); a read error other than EOF was
retried for ever; an undecodable frame blocked its connection with no report;
bytes pending at EOF were dropped.
---
 listener.go | 40 +++++++++++++++++++++++-----------------
 1 file changed, 23 insertions(+), 17 deletions(-)

diff --git a/listener.go b/listener.go
index 86d4b65..d540028 100644
--- a/listener.go
+++ b/listener.go
@@ -119,43 +119,49 @@ func (r *Receiver) tokenize(conn io.ReadCloser, chanErr chan<- error) {
 		if err != nil {
 			chanErr <- err
 		}
-		if lenRead == 0 && eof {
-			return
-		}
-		if lenRead == 0 {
+		if lenRead == 0 && !eof {
+			if err != nil {
+				return
+			}
 			continue
 		}
 
 		lenRead += done
 		data := buffer[0:lenRead]
-		for {
+		for len(data) > 0 {
 			msg, rest, parseErr := Parse(data, r.transport, eof)
 
-			if rest == nil {
-				//log.Printf("NIL\t{%q} {%q} %v %v %v", msg, data[0:10], len(rest), rest == nil, parseErr)
-				//log.Printf("NIL\t%v %v %v %v", count, total, lenRead, parseErr)
+			if rest == nil && parseErr == nil && !eof {
+				// the end of the frame is not yet received
 				break
 			}
-			data = rest
 
 			count++
 			r.pipeline <- messageErrorPair{msg, parseErr}
-			if len(rest) == 0 {
-				break
+			if rest == nil {
+				// end of the stream or no way to find the next frame
+				return
 			}
+			data = rest
+		}
+
+		if eof || err != nil {
+			return
 		}
 
 		done = len(data)
 		buffer = buffer[lenRead-done:]
 
-		if len(buffer) < 500 {
-			old := buffer
-			buffer = make([]byte, readBuffer)
-			copy(buffer[0:len(old)], old)
+		if done == readBuffer {
+			// the frame can't fit in the buffer
+			r.pipeline <- messageErrorPair{MessageImmutable{}, ErrTransportIncomplete}
+			return
 		}
 
-		if eof == true {
-			return
+		if len(buffer)-done < 500 && len(buffer) < readBuffer {
+			old := buffer
+			buffer = make([]byte, readBuffer)
+			copy(buffer[0:done], old)
 		}
 	}
 }
-- 
2.43.0


From 85ae6cad5c4d1117dc6029d974c2f85665d21adc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:44:15 +0000
Subject: [PATCH 07/32] fix: a failed Accept is not handed to a reader, and the
 pipeline is closed after its last writer

A failed Accept crashed the process (nil connection); a reader still running
when the accept loop ended crashed it too (send on closed channel).
---
 listener-unixdgram.go |  4 +++-
 listener.go           | 11 ++++++++++-
 2 files changed, 13 insertions(+), 2 deletions(-)

diff --git a/listener-unixdgram.go b/listener-unixdgram.go
index 5a23987..7e0b854 100644
--- a/listener-unixdgram.go
+++ b/listener-unixdgram.go
@@ -4,6 +4,7 @@ import (
 	"errors"
 	"net"
 	"os"
+	"sync"
 )
 
 type (
@@ -11,6 +12,7 @@ type (
 		listener *net.UnixConn
 		accepted bool
 		end      chan struct{}
+		closing  sync.Once
 	}
 
 	fakeConn struct {
@@ -61,7 +63,7 @@ func UnixgramListener(address string) (Listener, error) {
 }
 
 func (r *unixgramReceiver) Close() error {
-	close(r.end)
+	r.closing.Do(func() { close(r.end) })
 	return r.listener.Close()
 }
 
diff --git a/listener.go b/listener.go
index d540028..2ec31f7 100644
--- a/listener.go
+++ b/listener.go
@@ -3,6 +3,7 @@ package syslog5424 // import "github.com/nathanaelle/syslog5424/v2"
 import (
 	"io"
 	"net"
+	"sync"
 	//	"log"
 )
 
@@ -34,6 +35,7 @@ type (
 		transport Transport
 		pipeline  chan messageErrorPair
 		end       chan struct{}
+		readers   sync.WaitGroup
 	}
 
 	messageErrorPair struct {
@@ -78,8 +80,9 @@ func NewReceiver(listener Listener, lenQueue int, t Transport) (*Receiver, <-cha
 }
 
 func (r *Receiver) runQueue(chanErr chan<- error) {
-	defer r.listener.Close()
 	defer close(r.pipeline)
+	defer r.readers.Wait()
+	defer r.listener.Close()
 
 	for {
 		select {
@@ -90,8 +93,13 @@ func (r *Receiver) runQueue(chanErr chan<- error) {
 			conn, err := r.listener.Accept()
 			if err != nil {
 				chanErr <- err
+				if netErr, ok := err.(net.Error); ok && netErr.Temporary() {
+					continue
+				}
+				return
 			}
 
+			r.readers.Add(1)
 			go r.tokenize(conn, chanErr)
 		}
 	}
@@ -99,6 +107,7 @@ func (r *Receiver) runQueue(chanErr chan<- error) {
 }
 
 func (r *Receiver) tokenize(conn io.ReadCloser, chanErr chan<- error) {
+	defer r.readers.Done()
 	defer conn.Close()
 
 	var eof bool
-- 
2.43.0


From 4362fa93743c9774a3e72b44bb54d9328006dbaf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:44:59 +0000
Subject: [PATCH 08/32] fix: an error channel nobody reads no longer stalls the
 sender, the accept loop or a reader

The sender reported while it held the queue lock: with the error channel ignored,
as in the ReadMe, the second failure blocked every Send of the application.
---
 connector.go | 6 +++---
 errors.go    | 9 +++++++++
 listener.go  | 6 ++++--
 3 files changed, 16 insertions(+), 5 deletions(-)

diff --git a/connector.go b/connector.go
index 478c0ce..dbd1a1a 100644
--- a/connector.go
+++ b/connector.go
@@ -72,7 +72,7 @@ func (c *Sender) flushQueue() {
 	if c.output == nil {
 		var err error
 		if c.output, err = c.connector.Connect(); err != nil {
-			c.errChan <- err
+			reportError(c.errChan, err)
 			return
 		}
 	}
@@ -90,12 +90,12 @@ func (c *Sender) flushQueue() {
 			if sysErr, ok := typeErr.Err.(*os.SyscallError); ok && sysErr.Err == syscall.ENOBUFS {
 				return
 			}
-			c.errChan <- err
+			reportError(c.errChan, err)
 			c.output = nil
 			return
 
 		default:
-			c.errChan <- err
+			reportError(c.errChan, err)
 			c.output = nil
 			return
 		}
diff --git a/errors.go b/errors.go
index b963484..8cbaead 100644
--- a/errors.go
+++ b/errors.go
@@ -33,3 +33,12 @@ var (
 func (pe ParseError) Error() string {
 	return fmt.Sprintf("{%q} %d %s", pe.Buffer, pe.Pos, pe.Message)
 }
+
+// reportError sends err to an error channel.
+// an application may ignore this channel, so err is dropped when the channel is full
+func reportError(chanErr chan<- error, err error) {
+	select {
+	case chanErr <- err:
+	default:
+	}
+}
diff --git a/listener.go b/listener.go
index 2ec31f7..61e2f2e 100644
--- a/listener.go
+++ b/listener.go
@@ -4,6 +4,7 @@ import (
 	"io"
 	"net"
 	"sync"
+	"time"
 	//	"log"
 )
 
@@ -92,8 +93,9 @@ func (r *Receiver) runQueue(chanErr chan<- error) {
 		default:
 			conn, err := r.listener.Accept()
 			if err != nil {
-				chanErr <- err
+				reportError(chanErr, err)
 				if netErr, ok := err.(net.Error); ok && netErr.Temporary() {
+					time.Sleep(5 * time.Millisecond)
 					continue
 				}
 				return
@@ -126,7 +128,7 @@ func (r *Receiver) tokenize(conn io.ReadCloser, chanErr chan<- error) {
 		//log.Printf("EOF\t%v %v %v %v", count, total, lenRead, err)
 
 		if err != nil {
-			chanErr <- err
+			reportError(chanErr, err)
 		}
 		if lenRead == 0 && !eof {
 			if err != nil {
-- 
2.43.0


From fd89b2a347156834a3bde63ce545c40f2b559637 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:45:02 +0000
Subject: [PATCH 09/32] fix: the sender closes a connection it gives up, and
 End without a connection no longer crashes

End panicked (nil connection) when nothing was ever flushed or the last flush
failed; each failed connection leaked its descriptor.
---
 connector.go | 11 ++++++++---
 1 file changed, 8 insertions(+), 3 deletions(-)

diff --git a/connector.go b/connector.go
index dbd1a1a..adf8d84 100644
--- a/connector.go
+++ b/connector.go
@@ -70,11 +70,12 @@ func NewSender(output Connector, transport Transport, ticker <-chan time.Time) (
 
 func (c *Sender) flushQueue() {
 	if c.output == nil {
-		var err error
-		if c.output, err = c.connector.Connect(); err != nil {
+		output, err := c.connector.Connect()
+		if err != nil {
 			reportError(c.errChan, err)
 			return
 		}
+		c.output = output
 	}
 
 	//log.Printf("<--\tget lock for %d items", len(*c.queue))
@@ -91,11 +92,13 @@ func (c *Sender) flushQueue() {
 				return
 			}
 			reportError(c.errChan, err)
+			c.output.Close()
 			c.output = nil
 			return
 
 		default:
 			reportError(c.errChan, err)
+			c.output.Close()
 			c.output = nil
 			return
 		}
@@ -112,7 +115,9 @@ func (c *Sender) runQueue() {
 		for len(*c.queue) > 0 {
 			c.flushQueue()
 		}
-		c.output.Close()
+		if c.output != nil {
+			c.output.Close()
+		}
 		close(c.endCompleted)
 		close(c.errChan)
 	}()
-- 
2.43.0


From 14336f575eaf3d88180640473db1ace01c0b343c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:45:19 +0000
Subject: [PATCH 10/32] fix: a message Send accepted while the sender ends is
 flushed, a later one is refused

The final flush read the queue without the lock, a concurrent or later Send
returned nil for a message that was never sent, and End never returned when the
server stayed unreachable.
---
 connector.go | 27 +++++++++++++++++++++++++--
 1 file changed, 25 insertions(+), 2 deletions(-)

diff --git a/connector.go b/connector.go
index adf8d84..f62a918 100644
--- a/connector.go
+++ b/connector.go
@@ -35,6 +35,7 @@ type (
 		errChan      chan error
 		lock         *sync.Mutex
 		queue        *net.Buffers
+		ended        bool
 	}
 
 	// Addr see net.Addr
@@ -112,8 +113,19 @@ func (c *Sender) flushQueue() {
 
 func (c *Sender) runQueue() {
 	defer func() {
-		for len(*c.queue) > 0 {
+		c.lock.Lock()
+		c.ended = true
+		c.lock.Unlock()
+
+		for pending := c.pending(); pending > 0; {
+			fresh := c.output == nil
 			c.flushQueue()
+			left := c.pending()
+			if fresh && c.output == nil && left == pending {
+				// no way to send what is left
+				break
+			}
+			pending = left
 		}
 		if c.output != nil {
 			c.output.Close()
@@ -135,6 +147,13 @@ func (c *Sender) runQueue() {
 	}
 }
 
+func (c *Sender) pending() int {
+	c.lock.Lock()
+	defer c.lock.Unlock()
+
+	return len(*c.queue)
+}
+
 // Send send a Message to the log_sender goroutine
 func (c *Sender) Send(m Message) (err error) {
 	var msg []byte
@@ -145,8 +164,12 @@ func (c *Sender) Send(m Message) (err error) {
 	}
 
 	c.lock.Lock()
+	defer c.lock.Unlock()
+
+	if c.ended {
+		return ErrBufferClose
+	}
 	*c.queue = append(*c.queue, c.transport.Encode(msg))
-	c.lock.Unlock()
 
 	return
 }
-- 
2.43.0


From 1cc49171d5f3e3f63c4bec81edad77e4ba9f0a40 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:45:41 +0000
Subject: [PATCH 11/32] fix: after a failed write the interrupted message is
 sent whole on the next connection

The queue kept only the unsent tail of that message, so the next connection
began in the middle of a frame.
---
 connector.go | 14 +++++++++++++-
 1 file changed, 13 insertions(+), 1 deletion(-)

diff --git a/connector.go b/connector.go
index f62a918..1855bd4 100644
--- a/connector.go
+++ b/connector.go
@@ -84,7 +84,8 @@ func (c *Sender) flushQueue() {
 	defer c.lock.Unlock()
 
 	for len(*c.queue) > 0 {
-		_, err := c.queue.WriteTo(c.output)
+		whole := append(net.Buffers(nil), *c.queue...)
+		n, err := c.queue.WriteTo(c.output)
 
 		switch typeErr := err.(type) {
 		case nil:
@@ -93,12 +94,14 @@ func (c *Sender) flushQueue() {
 				return
 			}
 			reportError(c.errChan, err)
+			*c.queue = unsent(whole, n)
 			c.output.Close()
 			c.output = nil
 			return
 
 		default:
 			reportError(c.errChan, err)
+			*c.queue = unsent(whole, n)
 			c.output.Close()
 			c.output = nil
 			return
@@ -111,6 +114,15 @@ func (c *Sender) flushQueue() {
 	//log.Printf("<--\tget unlock")
 }
 
+// unsent returns the buffers that n bytes don't cover entirely
+func unsent(queue net.Buffers, n int64) net.Buffers {
+	for len(queue) > 0 && int64(len(queue[0])) <= n {
+		n -= int64(len(queue[0]))
+		queue = queue[1:]
+	}
+	return queue
+}
+
 func (c *Sender) runQueue() {
 	defer func() {
 		c.lock.Lock()
-- 
2.43.0


From 6d595d34af3cdf9756106ac75132ef9ec608fa81 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:45:45 +0000
Subject: [PATCH 12/32] fix: structured data shorter than the expected SD-ID no
 longer panics its decoders

A received '[a b="c"]' sliced past the end of the element when timequality is
registered.
---
 sdata/sd-generic.go     | 4 ++--
 sdata/sd-unknown.go     | 2 +-
 sdata/timequality/tq.go | 4 ++--
 3 files changed, 5 insertions(+), 5 deletions(-)

diff --git a/sdata/sd-generic.go b/sdata/sd-generic.go
index 579cb9f..10e285b 100644
--- a/sdata/sd-generic.go
+++ b/sdata/sd-generic.go
@@ -45,13 +45,13 @@ func (sdid genericSDID) MarshalText() (text []byte, err error) {
 }
 
 func (sdid genericSDID) Found(data []byte) (StructuredData, bool) {
-	if data[0] != '[' || data[len(data)-1] != ']' {
+	if len(data) < 2 || data[0] != '[' || data[len(data)-1] != ']' {
 		return nil, false
 	}
 	data = data[1 : len(data)-1]
 
 	header := sdid.String()
-	if string(data[0:len(header)]) != header {
+	if len(data) < len(header) || string(data[0:len(header)]) != header {
 		return nil, false
 	}
 
diff --git a/sdata/sd-unknown.go b/sdata/sd-unknown.go
index 5eee3f0..1592140 100644
--- a/sdata/sd-unknown.go
+++ b/sdata/sd-unknown.go
@@ -43,7 +43,7 @@ func (d unknownDef) MarshalText() (text []byte, err error) {
 }
 
 func (d unknownDef) Found(data []byte) (StructuredData, bool) {
-	if data[0] != '[' || data[len(data)-1] != ']' {
+	if len(data) < 2 || data[0] != '[' || data[len(data)-1] != ']' {
 		return nil, false
 	}
 	data = data[1 : len(data)-1]
diff --git a/sdata/timequality/tq.go b/sdata/timequality/tq.go
index 39343c8..b06dc41 100644
--- a/sdata/timequality/tq.go
+++ b/sdata/timequality/tq.go
@@ -58,12 +58,12 @@ func (d tqdef) MarshalText() (text []byte, err error) {
 }
 
 func (d tqdef) Found(data []byte) (sdata.StructuredData, bool) {
-	if data[0] != '[' || data[len(data)-1] != ']' {
+	if len(data) < 2 || data[0] != '[' || data[len(data)-1] != ']' {
 		return nil, false
 	}
 	data = data[1 : len(data)-1]
 
-	if string(data[0:11]) != "timeQuality" {
+	if len(data) < 11 || string(data[0:11]) != "timeQuality" {
 		return nil, false
 	}
 	data = data[11:]
-- 
2.43.0


From d744579bc26c7f5784c394a6b08e004af9b8def4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:46:58 +0000
Subject: [PATCH 13/32] fix: a TimeQuality whose syncAccuracy is not positive
 no longer panics Marshal5424

---
 sdata/timequality/tq.go | 15 +--------------
 1 file changed, 1 insertion(+), 14 deletions(-)

diff --git a/sdata/timequality/tq.go b/sdata/timequality/tq.go
index b06dc41..4c7f8f9 100644
--- a/sdata/timequality/tq.go
+++ b/sdata/timequality/tq.go
@@ -2,7 +2,6 @@ package timequality // import "github.com/nathanaelle/syslog5424/v2/sdata/timequ
 
 import (
 	"errors"
-	"math"
 	"strconv"
 
 	"github.com/nathanaelle/syslog5424/v2/sdata"
@@ -143,19 +142,7 @@ func (tq TimeQuality) Marshal5424() ([]byte, error) {
 		return nil, ErrInvalidTimeQuality
 	}
 
-	length := 13
-	if tq.TzKnown {
-		length += 12
-	}
-	if tq.IsSynced {
-		length += 13
-	}
-
-	if tq.SyncAccuracy != nil {
-		length += 15 + int(math.Floor(math.Log(float64(*tq.SyncAccuracy))+1))
-	}
-
-	ret := append(make([]byte, 0, length), []byte("[timeQuality")...)
+	ret := []byte("[timeQuality")
 
 	if tq.TzKnown {
 		ret = append(ret, []byte(` tzKnown="1"`)...)
-- 
2.43.0


From bb8700748dfef0306077c4e6e80a7dad1eb9cbeb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:48:02 +0000
Subject: [PATCH 14/32] fix: a structured data element without parameters is
 decoded instead of being dropped

---
 sdata/tokens.go | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/sdata/tokens.go b/sdata/tokens.go
index 78a6836..6555317 100644
--- a/sdata/tokens.go
+++ b/sdata/tokens.go
@@ -6,7 +6,7 @@ import (
 
 // NextHeader try to decode a Structured Data header from a []byte
 func NextHeader(data []byte) (header string, ret []byte, err error) {
-	if data == nil || len(data) < 4 {
+	if data == nil || len(data) < 1 {
 		return "", nil, fmt.Errorf("invalid length for [%q]", string(data))
 	}
 
@@ -27,7 +27,8 @@ func NextHeader(data []byte) (header string, ret []byte, err error) {
 		ret = ret[1:]
 		length++
 	}
-	return "", nil, fmt.Errorf("unexpected EOF")
+	// the element has no parameter
+	return string(data), ret, nil
 }
 
 // NextNonSpace try to decode a Structured Data part from a []byte
-- 
2.43.0


From 0189ae485d78fe609b6e7cdc62f7522bcb38b020 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:48:05 +0000
Subject: [PATCH 15/32] fix: an unexported field of a structured data no longer
 panics the encoder

---
 sdata/structured-data-encoder.go | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/sdata/structured-data-encoder.go b/sdata/structured-data-encoder.go
index 6bab7b5..4834008 100644
--- a/sdata/structured-data-encoder.go
+++ b/sdata/structured-data-encoder.go
@@ -224,6 +224,10 @@ func newStructEncoder(t reflect.Type) encoderFunc {
 
 		for i := 0; i < n; i++ {
 			sf := fields[i]
+			if sf.PkgPath != "" {
+				// unexported
+				continue
+			}
 			f := v.Field(i)
 			name, mandatory := getName(sf)
 			if !f.IsValid() || isEmptyValue(f) || len(name) == 0 {
-- 
2.43.0


From c0de6a80eb43363d6b6a1db3188769ea8a82da90 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:48:07 +0000
Subject: [PATCH 16/32] fix: an interface value in a structured data no longer
 panics the encoder

---
 sdata/structured-data-encoder.go | 10 +++++++++-
 1 file changed, 9 insertions(+), 1 deletion(-)

diff --git a/sdata/structured-data-encoder.go b/sdata/structured-data-encoder.go
index 4834008..ea8f865 100644
--- a/sdata/structured-data-encoder.go
+++ b/sdata/structured-data-encoder.go
@@ -134,7 +134,7 @@ func newTypeEncoder(t reflect.Type, root bool) encoderFunc {
 			return encodeurFlemmard
 
 		case reflect.Interface:
-			return newTypeEncoder(t.Elem(), false)
+			return interfaceEncoder
 
 		case reflect.Slice, reflect.Array:
 			return newListEncoder(t)
@@ -175,6 +175,14 @@ func newMaybeEncoder(t reflect.Type) encoderFunc {
 	}
 }
 
+// encoder for the value held by an interface
+func interfaceEncoder(e *encodeState, v reflect.Value, prefix []byte) {
+	if v.IsNil() {
+		return
+	}
+	newTypeEncoder(v.Elem().Type(), false)(e, v.Elem(), prefix)
+}
+
 // encoder for list, array, slice of a type
 // this encoder acts like a "*" pattern in a regexp
 func newListEncoder(t reflect.Type) encoderFunc {
-- 
2.43.0


From 56ac61591da6c2f22145ea1ed7a0ce9707b24bbd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:48:09 +0000
Subject: [PATCH 17/32] fix: an array in a structured data is encoded instead
 of failing

---
 sdata/structured-data-encoder.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/sdata/structured-data-encoder.go b/sdata/structured-data-encoder.go
index ea8f865..df0c312 100644
--- a/sdata/structured-data-encoder.go
+++ b/sdata/structured-data-encoder.go
@@ -187,7 +187,7 @@ func interfaceEncoder(e *encodeState, v reflect.Value, prefix []byte) {
 // this encoder acts like a "*" pattern in a regexp
 func newListEncoder(t reflect.Type) encoderFunc {
 	return func(e *encodeState, v reflect.Value, prefix []byte) {
-		if v.IsNil() {
+		if v.Kind() == reflect.Slice && v.IsNil() {
 			return
 		}
 		enc := newTypeEncoder(t.Elem(), false)
-- 
2.43.0


From 455e8bb4218f2961b6d0e5d4532dbc7231cd18d7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:48:12 +0000
Subject: [PATCH 18/32] fix: a missing mandatory field is an error and no
 longer a panic

---
 sdata/structured-data-encoder.go | 3 +--
 1 file changed, 1 insertion(+), 2 deletions(-)

diff --git a/sdata/structured-data-encoder.go b/sdata/structured-data-encoder.go
index df0c312..cc1e6d2 100644
--- a/sdata/structured-data-encoder.go
+++ b/sdata/structured-data-encoder.go
@@ -240,8 +240,7 @@ func newStructEncoder(t reflect.Type) encoderFunc {
 			name, mandatory := getName(sf)
 			if !f.IsValid() || isEmptyValue(f) || len(name) == 0 {
 				if mandatory {
-					// TODO this must be an error
-					panic("missing mandatory field")
+					e.error(fmt.Errorf("StructuredData: missing mandatory field %q", sf.Name))
 				}
 				continue
 			}
-- 
2.43.0


From a96e2c599166b05c25c1735e3aaa279adef9ee7d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:48:25 +0000
Subject: [PATCH 19/32] fix: a SD-ID or a parameter name can no longer forge
 structured data

---
 sdata/structured-data-encoder.go | 21 ++++++++++++++++++---
 1 file changed, 18 insertions(+), 3 deletions(-)

diff --git a/sdata/structured-data-encoder.go b/sdata/structured-data-encoder.go
index cc1e6d2..ac3f044 100644
--- a/sdata/structured-data-encoder.go
+++ b/sdata/structured-data-encoder.go
@@ -76,10 +76,25 @@ func (e *encodeState) HeaderWrite(typ string, v reflect.Value) {
 	e.WriteByte('[')
 
 	if v.Type().Implements(sdpenType) {
-		e.Write([]byte(v.Interface().(SDIDLight).String()))
+		e.Write(validName(v.Interface().(SDIDLight).String()))
 	}
 }
 
+// validName returns a valid SD-NAME : the bytes that may end the name or the element are replaced
+func validName(name string) []byte {
+	if name == "" {
+		return []byte{'-'}
+	}
+
+	data := []byte(name)
+	for i, d := range data {
+		if d < 33 || d > 126 || d == '=' || d == ']' || d == '"' {
+			data[i] = '%'
+		}
+	}
+	return data
+}
+
 func (e *encodeState) error(err error) {
 	panic(err)
 }
@@ -215,7 +230,7 @@ func newMapEncoder(t reflect.Type) encoderFunc {
 		var sv stringValues = v.MapKeys()
 		sort.Sort(sv)
 		for _, k := range sv {
-			enc(e, v.MapIndex(k), []byte(k.String())[:])
+			enc(e, v.MapIndex(k), validName(k.String()))
 		}
 		e.WriteByte(']')
 	}
@@ -263,7 +278,7 @@ func getName(field reflect.StructField) ([]byte, bool) {
 		name = tagName
 	}
 
-	return []byte(name), mandatory
+	return validName(name), mandatory
 }
 
 func isEmptyValue(v reflect.Value) bool {
-- 
2.43.0


From c9523b3ae42b43d040d5fc9f9d248368c463d276 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:48:41 +0000
Subject: [PATCH 20/32] fix: a TCP host without an address of the wished family
 is an error and no longer a panic

---
 connector-tcp.go | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/connector-tcp.go b/connector-tcp.go
index fd55ec9..ebdd40b 100644
--- a/connector-tcp.go
+++ b/connector-tcp.go
@@ -81,6 +81,10 @@ func (c *tcpConn) Connect() (conn WriteCloser, err error) {
 	if err != nil {
 		return nil, err
 	}
+	if contcp == nil {
+		// no address for the wished network
+		return nil, ErrNoConnection
+	}
 
 	contcp.CloseRead()
 	contcp.SetNoDelay(false)
-- 
2.43.0


From 78498797ffb7b34cdfb108ec0bf1b2f3f375f0c0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:48:43 +0000
Subject: [PATCH 21/32] fix: two lists derived from the same list of structured
 data no longer overwrite each other

---
 sdata/list.go | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/sdata/list.go b/sdata/list.go
index 547dd7a..b1caa0a 100644
--- a/sdata/list.go
+++ b/sdata/list.go
@@ -77,8 +77,8 @@ func RegisterGroup(sdids ...SDID) {
 
 // Add append data to a list of structured data
 func (listSD List) Add(data ...StructuredData) List {
-
-	return List(append([]StructuredData(listSD), data...))
+	// the result never shares its storage with another list derived from listSD
+	return List(append([]StructuredData(listSD[:len(listSD):len(listSD)]), data...))
 }
 
 // Marshal5424 encode a Structured Data to syslog 5424 format
-- 
2.43.0


From 5cdbf2044e534474f00bc6bf165c4aa748258e4c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:48:45 +0000
Subject: [PATCH 22/32] fix: SubSyslog validates the app-name it composes

---
 syslog.go | 1 +
 1 file changed, 1 insertion(+)

diff --git a/syslog.go b/syslog.go
index 1de5193..d047098 100644
--- a/syslog.go
+++ b/syslog.go
@@ -92,6 +92,7 @@ func (syslog *Syslog) SubSyslog(subAppName string) (sub *Syslog) {
 	default:
 		appname = syslog.appname + "/" + subAppName
 	}
+	appname = validApp(appname)
 
 	sub = &Syslog{
 		facility: syslog.facility,
-- 
2.43.0


From d1336074deb7ced2f2578747e026f2ecedb20de4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:48:48 +0000
Subject: [PATCH 23/32] fix: the hostname of the system is validated like any
 other hostname

---
 message.go | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/message.go b/message.go
index 0b06c55..7ef81d5 100644
--- a/message.go
+++ b/message.go
@@ -29,7 +29,7 @@ var hostname, _ = os.Hostname()
 
 // CreateMessage create a Message with the timestamp, hostname, appname, the priority and the message preset
 func CreateMessage(appname string, prio Priority, message string) Message {
-	return Message{prio, time.Now(), hostname, validApp(appname), "-", "-", sdata.EmptyList(), strings.TrimRightFunc(message, unicode.IsSpace)}
+	return Message{prio, time.Now(), validHost(hostname), validApp(appname), "-", "-", sdata.EmptyList(), strings.TrimRightFunc(message, unicode.IsSpace)}
 }
 
 // CreateWholeMessage create a whole Message
@@ -126,7 +126,7 @@ func (msg Message) Priority(prio Priority) Message {
 
 // LocalHost set the hostname as the value get with gethostbyname()
 func (msg Message) LocalHost() Message {
-	return Message{msg.prio, msg.timestamp, hostname, msg.appname, msg.procid, msg.msgid, msg.sd, msg.message}
+	return Message{msg.prio, msg.timestamp, validHost(hostname), msg.appname, msg.procid, msg.msgid, msg.sd, msg.message}
 }
 
 // Msg set the message part of a Message
-- 
2.43.0


From b4d762a3a469f0c4ae3bf9ce0bb39b5f6cbbb30f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:49:06 +0000
Subject: [PATCH 24/32] fix: Syslog.Channel no longer races, nor drops
 messages, when first called by many goroutines

---
 syslog.go | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/syslog.go b/syslog.go
index d047098..ba6b0b3 100644
--- a/syslog.go
+++ b/syslog.go
@@ -4,6 +4,7 @@ import (
 	"errors"
 	"os"
 	"strconv"
+	"sync"
 )
 
 var (
@@ -19,6 +20,7 @@ type Syslog struct {
 	channels []Channel
 	output   *Sender
 	minSev   int
+	lock     sync.Mutex
 }
 
 // New create a new Syslog
@@ -60,6 +62,9 @@ func (syslog *Syslog) TestMode() {
 
 // Channel expose a custom channel for a priority
 func (syslog *Syslog) Channel(sev Priority) Channel {
+	syslog.lock.Lock()
+	defer syslog.lock.Unlock()
+
 	if syslog.channels == nil {
 		syslog.channels = []Channel{
 			devNull, devNull, devNull, devNull,
-- 
2.43.0


From fa11041b7ce1c204c836b7c9c591c23b5a1539ca Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:49:08 +0000
Subject: [PATCH 25/32] fix: a channel with a msgid gives live channels instead
 of /dev/null

---
 channel.go | 12 ++++++++++++
 1 file changed, 12 insertions(+)

diff --git a/channel.go b/channel.go
index 0762c4a..0bbc636 100644
--- a/channel.go
+++ b/channel.go
@@ -67,6 +67,18 @@ func (d *trueChannel) AppName(sup string) Channel {
 	}}
 }
 
+// AppName and Msgid would else be the ones of devnull, that discard everything
+
+func (c *msgChannel) AppName(sup string) Channel {
+	t := &trueChannel{*c}
+	return t.AppName(sup).Msgid(c.msgid)
+}
+
+func (c *msgChannel) Msgid(msgid string) Channel {
+	t := &trueChannel{*c}
+	return t.Msgid(msgid)
+}
+
 func (d *trueChannel) Msgid(msgid string) Channel {
 	return &msgChannel{
 		priority: d.priority,
-- 
2.43.0


From 4d8cd72c33a0153cd59d514ffed146b24f6f26c8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:49:22 +0000
Subject: [PATCH 26/32] fix: a unix listener only removes a socket, and gives
 up when it can't

---
 listener-unix.go      | 6 ++++--
 listener-unixdgram.go | 6 ++++--
 2 files changed, 8 insertions(+), 4 deletions(-)

diff --git a/listener-unix.go b/listener-unix.go
index d68f167..bf2cc74 100644
--- a/listener-unix.go
+++ b/listener-unix.go
@@ -35,10 +35,12 @@ func UnixListener(address string) (Listener, error) {
 			return nil, err
 		}
 
-		if _, osErr := os.Stat(address); osErr != nil {
+		if st, osErr := os.Lstat(address); osErr != nil || st.Mode()&os.ModeSocket == 0 {
 			return nil, err
 		}
-		os.Remove(address)
+		if osErr := os.Remove(address); osErr != nil {
+			return nil, osErr
+		}
 
 		r.listener, err = net.ListenUnix("unix", uAddr)
 	}
diff --git a/listener-unixdgram.go b/listener-unixdgram.go
index 7e0b854..9b98341 100644
--- a/listener-unixdgram.go
+++ b/listener-unixdgram.go
@@ -47,10 +47,12 @@ func UnixgramListener(address string) (Listener, error) {
 			return nil, err
 		}
 
-		if _, osErr := os.Stat(address); osErr != nil {
+		if st, osErr := os.Lstat(address); osErr != nil || st.Mode()&os.ModeSocket == 0 {
 			return nil, err
 		}
-		os.Remove(address)
+		if osErr := os.Remove(address); osErr != nil {
+			return nil, osErr
+		}
 
 		r.listener, err = net.ListenUnixgram("unixgram", uAddr)
 	}
-- 
2.43.0


From f15b91f033866f94af87674a594680bd3cf0d6c7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:49:24 +0000
Subject: [PATCH 27/32] fix: Write on a channel returns the error of a message
 that is not sent

---
 channel.go | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/channel.go b/channel.go
index 0bbc636..446c9cb 100644
--- a/channel.go
+++ b/channel.go
@@ -104,7 +104,10 @@ func (c *msgChannel) IsDevNull() bool {
 }
 
 func (c *msgChannel) Write(d []byte) (int, error) {
-	c.output.Send(forgeMessage(c.priority, Now(), c.hostname, c.appname, c.pid, c.msgid, string(d)))
+	err := c.output.Send(forgeMessage(c.priority, Now(), c.hostname, c.appname, c.pid, c.msgid, string(d)))
+	if err != nil {
+		return 0, err
+	}
 	return len(d), nil
 }
 
-- 
2.43.0


From e5ce22e3c96c12cea079a3c2e50c77352bca3f88 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:49:37 +0000
Subject: [PATCH 28/32] fix: a terminator inside a message no longer splits its
 frame, and Encode no longer writes into its argument

---
 transport.go | 9 +++++++--
 1 file changed, 7 insertions(+), 2 deletions(-)

diff --git a/transport.go b/transport.go
index acccd00..2a93961 100644
--- a/transport.go
+++ b/transport.go
@@ -146,13 +146,18 @@ func (t tRFC5425) SuffixStrip(buffer []byte, atEOF bool) (data, rest []byte, err
 // Write a NULL terminated message.
 // see (Conn interface)[#Conn]
 func (t tZeroEnded) Encode(d []byte) []byte {
-	return append(d, byte(0))
+	return terminated(d, byte(0))
 }
 
 // Write a LF terminated message
 // see (Conn interface)[#Conn]
 func (t tLFEnded) Encode(d []byte) []byte {
-	return append(d, '\n')
+	return terminated(d, '\n')
+}
+
+// terminated returns a copy of d ended by end. an end inside d would cut the frame, so it becomes a space
+func terminated(d []byte, end byte) []byte {
+	return append(bytes.Replace(d, []byte{end}, []byte{' '}, -1), end)
 }
 
 // Write a RFC 5425 formated message
-- 
2.43.0


From 0770f9feb3ede49d465c3da198c786b2ca14b619 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:47:22 +0000
Subject: [PATCH 29/32] fix: a stdio Sender does not close the standard streams
 of the process

---
 connector-fd.go | 17 +++++++++++++++--
 1 file changed, 15 insertions(+), 2 deletions(-)

diff --git a/connector-fd.go b/connector-fd.go
index a26da23..c953418 100644
--- a/connector-fd.go
+++ b/connector-fd.go
@@ -1,9 +1,22 @@
 package syslog5424 // import "github.com/nathanaelle/syslog5424/v2"
 
 import (
+	"io"
 	"os"
 )
 
+type (
+	// stdStream is a standard stream of the process : it is not the Sender who decides to close it
+	stdStream struct {
+		io.Writer
+	}
+)
+
+// Close implements io.Closer
+func (stdStream) Close() error {
+	return nil
+}
+
 // StdioConnector returns a Connector that only forward to stderr: or stdout:
 func StdioConnector(addr string) Connector {
 	if addr == "" {
@@ -13,12 +26,12 @@ func StdioConnector(addr string) Connector {
 	switch addr {
 	case "stderr:":
 		return ConnectorFunc(func() (WriteCloser, error) {
-			return os.Stderr, nil
+			return stdStream{os.Stderr}, nil
 		})
 
 	case "stdout:":
 		return ConnectorFunc(func() (WriteCloser, error) {
-			return os.Stdout, nil
+			return stdStream{os.Stdout}, nil
 		})
 	}
 
-- 
2.43.0


From d91774f574378981f853d30d26ba8dd4fedfb423 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 07:24:34 +0000
Subject: [PATCH 30/32] fix: a decoded generic element can be encoded again

---
 sdata/sd-generic.go | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/sdata/sd-generic.go b/sdata/sd-generic.go
index 10e285b..b59acd2 100644
--- a/sdata/sd-generic.go
+++ b/sdata/sd-generic.go
@@ -68,6 +68,11 @@ func (sd genericSD) SDID() SDID {
 }
 
 func (sd genericSD) Marshal5424() ([]byte, error) {
+	if sd.Interface == nil {
+		// a decoded element, which has no parameters
+		return append(append([]byte{'['}, validName(sd.sdid.String())...), ']'), nil
+	}
+
 	e := &encodeState{}
 	err := e.marshal(sd.Interface)
 	if err != nil {
-- 
2.43.0


From a74ae332be94f13c99142dce0785da63a8802a8d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 07:51:59 +0000
Subject: [PATCH 31/32] fix: a short counted frame is decoded before more bytes
 are received

---
 transport.go | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/transport.go b/transport.go
index 2a93961..6208cf2 100644
--- a/transport.go
+++ b/transport.go
@@ -77,11 +77,11 @@ func (t tRFC5425) PrefixStrip(buffer []byte, atEOF bool) (data, rest []byte, err
 		return nil, nil, nil
 	}
 
-	if len(buffer) < 20 && !atEOF {
+	sepPos := bytes.IndexByte(buffer, ' ')
+	if sepPos < 0 && len(buffer) < 20 && !atEOF {
+		// the header is not yet received
 		return nil, nil, nil
 	}
-
-	sepPos := bytes.IndexByte(buffer, ' ')
 	if sepPos <= 0 {
 		return nil, nil, ErrTransportNoHeader
 	}
-- 
2.43.0


From 70b351ddc710a00a667ed1a0c517072bcdb5c029 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 08:06:25 +0000
Subject: [PATCH 32/32] fix: a priority out of range is not encoded as another
 one

---
 priority.go | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/priority.go b/priority.go
index 1b6c5e4..e0ab72b 100644
--- a/priority.go
+++ b/priority.go
@@ -2,6 +2,7 @@ package syslog5424 // import "github.com/nathanaelle/syslog5424/v2"
 
 import (
 	"errors"
+	"strconv"
 )
 
 // Priority is the encoded form of the severity and facility of a Message
@@ -139,6 +140,10 @@ func (p Priority) String() string {
 
 // Marshal5424 encode the priority to Syslog5424 format
 func (p Priority) Marshal5424() (data []byte, err error) {
+	if p < 0 || p > facilityMask|severityMask {
+		return nil, errors.New("priority out of range : " + strconv.Itoa(int(p)))
+	}
+
 	u := byte(int(p) % 10)
 	d := byte(int(p)%100 - (int(p) % 10))
 	c := byte(int(p) - (int(p) % 100))
-- 
2.43.0

