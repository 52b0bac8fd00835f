From 7411ca739193498c932fba84b04511fb99ccabd5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:49:44 +0000
Subject: [PATCH 001/126] fix: Pipe.readall must restore the read-blocking mode

---
 pyslet/streams.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pyslet/streams.py b/pyslet/streams.py
index 65baddd..536afe5 100755
--- a/pyslet/streams.py
+++ b/pyslet/streams.py
@@ -592,7 +592,7 @@ class Pipe(io.RawIOBase):
                     else:
                         data.append(part)
             finally:
-                self.rlocking = save_rblocking
+                self.rblocking = save_rblocking
 
     def _consolidate_buffer(self):
         with self.lock:
-- 
2.43.0


From e1b5fafa9578f2be62c8ffa40bdedeaacd49624a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:49:44 +0000
Subject: [PATCH 002/126] fix: Pipe.readmatch must not count consumed bytes as
 still buffered

---
 pyslet/streams.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/pyslet/streams.py b/pyslet/streams.py
index 536afe5..533c28c 100755
--- a/pyslet/streams.py
+++ b/pyslet/streams.py
@@ -599,6 +599,7 @@ class Pipe(io.RawIOBase):
             if self.buffer:
                 if self.rpos:
                     self.buffer[0] = self.buffer[0][self.rpos:]
+                    self.bsize = self.bsize - self.rpos
                     self.rpos = 0
                 self.buffer = [b''.join(self.buffer)]
 
-- 
2.43.0


From b13e1486f859fe973b07320169d089cdb9b0d09b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:49:45 +0000
Subject: [PATCH 003/126] fix: writing an empty bytearray to a Pipe must not
 look like EOF

---
 pyslet/streams.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/pyslet/streams.py b/pyslet/streams.py
index 533c28c..060bd5e 100755
--- a/pyslet/streams.py
+++ b/pyslet/streams.py
@@ -487,6 +487,9 @@ class Pipe(io.RawIOBase):
                 return nbytes
             elif isinstance(b, bytearray):
                 nbytes = len(b)
+                if not nbytes:
+                    # an empty string in the buffer would look like EOF
+                    return 0
                 if nbytes > wlen:
                     nbytes = wlen
                     # partial copy, creates transient bytearray :(
-- 
2.43.0


From 5c604402ff6c9660eb8b7cadc0643077dd21d34c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:49:45 +0000
Subject: [PATCH 004/126] fix: Pipe.readmatch must time out only after its
 time-out

---
 pyslet/streams.py | 30 ++++++++++++++++++++----------
 1 file changed, 20 insertions(+), 10 deletions(-)

diff --git a/pyslet/streams.py b/pyslet/streams.py
index 060bd5e..9a78fe6 100755
--- a/pyslet/streams.py
+++ b/pyslet/streams.py
@@ -617,6 +617,7 @@ class Pipe(io.RawIOBase):
         is raised with code ENOBUFS."""
         with self.lock:
             pos = -1
+            cstate = None
             while pos < 0:
                 if self.buffer:
                     # take care of a special case first
@@ -653,18 +654,27 @@ class Pipe(io.RawIOBase):
                         if self.rblocking:
                             # we wait for something to happen on the
                             # Pipe hopefully a write operation!
-                            cstate = self.wstate
+                            if self.timeout is None:
+                                twait = None
+                            else:
+                                if self.wstate != cstate:
+                                    # something was written (or we
+                                    # have only just started), (re)start
+                                    # the clock
+                                    cstate = self.wstate
+                                    tstart = time.time()
+                                twait = (tstart + self.timeout) - time.time()
+                                if twait < 0:
+                                    logging.warning(
+                                        "Pipe.readmatch timed out for %s",
+                                        repr(self))
+                                    raise IOError(
+                                        errno.ETIMEDOUT,
+                                        os.strerror(errno.ETIMEDOUT),
+                                        "pyslet.http.server.Pipe.readmatch")
                             logging.debug("Pipe.readmatch waiting for %s",
                                           repr(self))
-                            self.lock.wait(self.timeout)
-                            if self.wstate == cstate:
-                                logging.warning(
-                                    "Pipe.readmatch timed out for %s",
-                                    repr(self))
-                                raise IOError(
-                                    errno.ETIMEDOUT,
-                                    os.strerror(errno.ETIMEDOUT),
-                                    "pyslet.http.server.Pipe.readmatch")
+                            self.lock.wait(twait)
                             # go round the loop again
                         else:
                             # non-blocking readmatch returns None
-- 
2.43.0


From be6135cc249736289f24603f83ea0c1b803abb62 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:49:45 +0000
Subject: [PATCH 005/126] fix: a Pipe read that had to wait must set the reader
 event

---
 pyslet/streams.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/pyslet/streams.py b/pyslet/streams.py
index 9a78fe6..83f5835 100755
--- a/pyslet/streams.py
+++ b/pyslet/streams.py
@@ -760,5 +760,8 @@ class Pipe(io.RawIOBase):
                 self.rpos = 0
             if nbytes:
                 self.rstate += 1
+                # the writer may have cleared the flag while we waited
+                if self.rflag is not None:
+                    self.rflag.set()
                 self.lock.notify_all()
             return nbytes
-- 
2.43.0


From 8d3274860d07c711bbd8cf9a75cb36aba7f6dc68 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:01:04 +0000
Subject: [PATCH 006/126] fix: BufferedStreamWrapper.seek must return the new
 position and refuse negative ones

---
 pyslet/streams.py | 11 +++++++----
 1 file changed, 7 insertions(+), 4 deletions(-)

diff --git a/pyslet/streams.py b/pyslet/streams.py
index 83f5835..f59bc29 100755
--- a/pyslet/streams.py
+++ b/pyslet/streams.py
@@ -119,15 +119,18 @@ class BufferedStreamWrapper(io.RawIOBase):
         if self.overflow:
             raise io.UnsupportedOperation
         elif whence == io.SEEK_SET:
-            self.pos = offset
+            pos = offset
         elif whence == io.SEEK_CUR:
-            self.pos += offset
+            pos = self.pos + offset
         elif whence == io.SEEK_END:
-            self.pos = self.length + offset
+            pos = self.length + offset
         else:
             raise ValueError("unrecognized whence value in seek: %s" %
                              repr(whence))
-        self.buff.seek(self.pos)
+        # raises ValueError, leaving the position alone, if pos < 0
+        self.buff.seek(pos)
+        self.pos = pos
+        return pos
 
     def readinto(self, b):
         if self.pos < self.bsize:
-- 
2.43.0


From 3b9c7941f6f7f396041a42cd7fe3bea46c6714d7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:11:11 +0000
Subject: [PATCH 007/126] fix: GzipEncoder must keep the encoded data that does
 not fit the caller's buffer

---
 pyslet/http/messages.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/pyslet/http/messages.py b/pyslet/http/messages.py
index 1f1b0f0..1f4dbb0 100755
--- a/pyslet/http/messages.py
+++ b/pyslet/http/messages.py
@@ -45,12 +45,12 @@ class GzipEncoder(io.RawIOBase):
             if self.buffstr:
                 # we have some buffered data left over
                 if len(self.buffstr) > nbytes:
-                    self.buffstr = data[nbytes:]
-                    b[:] = data[:nbytes]
+                    b[:] = self.buffstr[:nbytes]
+                    self.buffstr = self.buffstr[nbytes:]
                 else:
                     nbytes = len(self.buffstr)
                     b[:nbytes] = self.buffstr
-                self.buffstr = None
+                    self.buffstr = None
                 return nbytes
             elif self.src is not None:
                 data = self.src.read(nbytes)
-- 
2.43.0


From 8beb0621736a86b58b6cd8a265587de63f772f51 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:11:29 +0000
Subject: [PATCH 008/126] fix: ChunkedReader must cope with short reads and
 refuse truncated data

---
 pyslet/http/messages.py | 29 ++++++++++++++++++++---------
 1 file changed, 20 insertions(+), 9 deletions(-)

diff --git a/pyslet/http/messages.py b/pyslet/http/messages.py
index 1f4dbb0..a426cd6 100755
--- a/pyslet/http/messages.py
+++ b/pyslet/http/messages.py
@@ -149,17 +149,21 @@ class ChunkedReader(io.RawIOBase):
 
     def _read_chunksize(self):
         # trailing CRLF needs to be read:
-        if self.chunk_left == 0:
-            self.src.readline()
-        p = params.ParameterParser(self.src.readline().strip())
+        if self.chunk_left == 0 and self._read_line().strip():
+            raise ProtocolError("chunk-data termination error")
+        p = params.ParameterParser(self._read_line().strip())
         self.chunk_left = int(p.parse_token(), 16)
         if self.chunk_left == 0:
-            self.eof = True
             # read the trailing headers and CRLF
-            while True:
-                line = self.src.readline()
-                if not line.strip():
-                    break
+            while self._read_line().strip():
+                continue
+            self.eof = True
+
+    def _read_line(self):
+        line = self.src.readline()
+        if not line.endswith(b"\n"):
+            raise ProtocolError("unexpected end of chunked data")
+        return line
 
     def readable(self):
         return True
@@ -179,7 +183,14 @@ class ChunkedReader(io.RawIOBase):
         nbytes = len(b)
         if nbytes > self.chunk_left:
             nbytes = self.chunk_left
-        b[:nbytes] = self.src.read(nbytes)
+        data = self.src.read(nbytes)
+        if data is None:
+            # we are read blocked
+            return None
+        if nbytes and not data:
+            raise ProtocolError("unexpected end of chunked data")
+        nbytes = len(data)
+        b[:nbytes] = data
         self.chunk_left -= nbytes
         return nbytes
 
-- 
2.43.0


From 86e0cbbdacfb919545fd4b231544fb880610d613 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:12:07 +0000
Subject: [PATCH 009/126] fix: WSGIInputWrapper.seek must skip exactly the
 bytes asked for and stay inside the body

---
 pyslet/http/messages.py | 7 +++----
 1 file changed, 3 insertions(+), 4 deletions(-)

diff --git a/pyslet/http/messages.py b/pyslet/http/messages.py
index a426cd6..4439105 100755
--- a/pyslet/http/messages.py
+++ b/pyslet/http/messages.py
@@ -267,7 +267,7 @@ class WSGIInputWrapper(io.RawIOBase):
                     self.pos + n > self.inputLength:
                 # application should not attempt to read past the
                 # CONTENT_LENGTH
-                n = self.inputLength - self.pos
+                n = max(0, self.inputLength - self.pos)
             idata = self.input_stream.read(n)
             if len(idata) == 0:
                 self.input_stream = None
@@ -298,7 +298,7 @@ class WSGIInputWrapper(io.RawIOBase):
                 "WSGIInputWrapper: attempt to set the stream position "
                 "to a negative value")
         if new_pos == self.pos:
-            return
+            return new_pos
         if new_pos <= self.buffSize:
             self.buffer.seek(new_pos)
         else:
@@ -310,10 +310,9 @@ class WSGIInputWrapper(io.RawIOBase):
                 data = self.read(n)
                 if len(data) == 0:
                     break
-                else:
-                    self.pos += len(data)
         # new_pos may be beyond the end of the input stream, that's OK
         self.pos = new_pos
+        return new_pos
 
     def seekable(self):
         """A bit cheeky here, we are initially seekable."""
-- 
2.43.0


From 23a481dba710bcb6b642ae308b088459a1c4e97a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:12:07 +0000
Subject: [PATCH 010/126] fix: WSGIInputWrapper.readinto must work with byte
 strings

---
 pyslet/http/messages.py | 10 +++-------
 1 file changed, 3 insertions(+), 7 deletions(-)

diff --git a/pyslet/http/messages.py b/pyslet/http/messages.py
index 4439105..4e2d693 100755
--- a/pyslet/http/messages.py
+++ b/pyslet/http/messages.py
@@ -255,7 +255,7 @@ class WSGIInputWrapper(io.RawIOBase):
         the input_stream itself."""
         if self.closed:
             raise IOError("WSGIInputWrapper was closed")
-        if n == -1:
+        if n is None or n < 0:
             return self.readall()
         data = b''
         if n and self.pos < self.buffSize:
@@ -344,12 +344,8 @@ class WSGIInputWrapper(io.RawIOBase):
         return b''.join(result)
 
     def readinto(self, b):
-        n = len(b)
-        data = self.read(n)
-        i = 0
-        for d in data:
-            b[i] = ord(d)
-            i = i + 1
+        data = self.read(len(b))
+        b[:len(data)] = data
         return len(data)
 
     def readline(self, limit=-1):
-- 
2.43.0


From 94348fd86c99ca05fb9a875355713d946f77c984 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:12:07 +0000
Subject: [PATCH 011/126] fix: iterating over a WSGIInputWrapper must stop at
 end of file

---
 pyslet/http/messages.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/pyslet/http/messages.py b/pyslet/http/messages.py
index 4e2d693..bec68d2 100755
--- a/pyslet/http/messages.py
+++ b/pyslet/http/messages.py
@@ -395,8 +395,9 @@ class WSGIInputWrapper(io.RawIOBase):
     def __iter__(self):
         while True:
             line = self.readline()
-            if line:
-                yield line
+            if not line:
+                break
+            yield line
 
 
 class Message(PEP8Compatibility, object):
-- 
2.43.0


From c455b8a60597248d38334c1abb5fcef101233fd0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:12:20 +0000
Subject: [PATCH 012/126] fix: WSGIInputWrapper must not report end of file
 before CONTENT_LENGTH bytes

---
 pyslet/http/messages.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/pyslet/http/messages.py b/pyslet/http/messages.py
index bec68d2..80ea850 100755
--- a/pyslet/http/messages.py
+++ b/pyslet/http/messages.py
@@ -258,6 +258,7 @@ class WSGIInputWrapper(io.RawIOBase):
         if n is None or n < 0:
             return self.readall()
         data = b''
+        nothing_wanted = not n
         if n and self.pos < self.buffSize:
             data = self.buffer.read(n)
             self.pos += len(data)
@@ -277,6 +278,9 @@ class WSGIInputWrapper(io.RawIOBase):
                     data = data + idata
                 else:
                     data = idata
+        if not (nothing_wanted or data) and self.inputLength is not None and \
+                self.pos < self.inputLength:
+            raise IOError("WSGIInputWrapper: unexpected end of input")
         return data
 
     def seek(self, offset, whence=io.SEEK_SET):
-- 
2.43.0


From 015b5696dc944d579a08fe4711498655351a8c2c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:12:36 +0000
Subject: [PATCH 013/126] fix: send_body must end with bytes and refuse an
 entity body shorter than its Content-Length

---
 pyslet/http/messages.py | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/pyslet/http/messages.py b/pyslet/http/messages.py
index 80ea850..ac1005e 100755
--- a/pyslet/http/messages.py
+++ b/pyslet/http/messages.py
@@ -685,10 +685,13 @@ class Message(PEP8Compatibility, object):
                     else:
                         # end of the message body (read forever mode)
                         self.transferDone = True
-                        return ''
+                        if self.transferlength is not None:
+                            raise HTTPException("Too little data in "
+                                                "entity body")
+                        return b''
                 else:
                     self.transferDone = True
-                    return ''
+                    return b''
 
     START_MODE = 1
     HEADER_MODE = 2
-- 
2.43.0


From f39a8be04542bbeb0ab4d83ae1d65a7fa0fa646e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:12:36 +0000
Subject: [PATCH 014/126] fix: an empty string must complete a message read
 until the connection closes

---
 pyslet/http/messages.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/pyslet/http/messages.py b/pyslet/http/messages.py
index ac1005e..829278d 100755
--- a/pyslet/http/messages.py
+++ b/pyslet/http/messages.py
@@ -880,8 +880,11 @@ class Message(PEP8Compatibility, object):
                         # we're receiving all data
                         self.recv_buffer = data
                     self._recv_buffered()
+                elif self.transferlength is None:
+                    # end of the data in read until close mode
+                    self.transfermode = None
                 else:
-                    self.transfer_mode = None
+                    raise ProtocolError("unexpected end of message body")
             elif self.transfermode == self.BLOCKED_MODE:
                 self._recv_buffered()
             elif self.transfermode == self.CHUNK_END_MODE:
-- 
2.43.0


From 54249e2873ac3016f067843ecebda63e537e070a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:12:36 +0000
Subject: [PATCH 015/126] fix: a message blocked while flushing after the chunk
 trailer must complete

---
 pyslet/http/messages.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/pyslet/http/messages.py b/pyslet/http/messages.py
index 829278d..09128fe 100755
--- a/pyslet/http/messages.py
+++ b/pyslet/http/messages.py
@@ -967,7 +967,7 @@ class Message(PEP8Compatibility, object):
                 self.recv_buffer = None
         if self.recv_buffer:
             self.transfermode = self.BLOCKED_MODE
-        elif self.transferchunked:
+        elif self.transferchunked and self.transferlength:
             if self.transferPos >= self.transferlength:
                 self.transfermode = self.CHUNK_END_MODE
             else:
@@ -976,7 +976,7 @@ class Message(PEP8Compatibility, object):
             # we're in read forever mode
             self.transfermode = self.DATA_MODE
         elif self.transferPos >= self.transferlength:
-            # not chunked, defined message body length
+            # end of a defined message body length or of the chunk trailer
             # we need a flushing mode here
             try:
                 self.transferbody.flush()
-- 
2.43.0


From 17c68aac94946c6160abaf91a49084d191df7666 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:12:36 +0000
Subject: [PATCH 016/126] fix: set_authorization(None) must remove the header

---
 pyslet/http/messages.py | 9 +++++++--
 1 file changed, 7 insertions(+), 2 deletions(-)

diff --git a/pyslet/http/messages.py b/pyslet/http/messages.py
index 09128fe..33ec338 100755
--- a/pyslet/http/messages.py
+++ b/pyslet/http/messages.py
@@ -1211,8 +1211,13 @@ class Message(PEP8Compatibility, object):
         """Sets the "Authorization" header
 
         credentials
-                a :py:class:`~pyslet.http.auth.Credentials` instance"""
-        self.set_header("Authorization", str(credentials))
+                a :py:class:`~pyslet.http.auth.Credentials` instance
+
+        If credentials is None the Authorization header is removed."""
+        if credentials is None:
+            self.set_header("Authorization", None)
+        else:
+            self.set_header("Authorization", str(credentials))
 
     def get_cache_control(self):
         """Returns an :py:class:`CacheControl` instance or None if no
-- 
2.43.0


From bdf096d4dbd20da14ec49b0605aacf6a6558c2b9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:12:55 +0000
Subject: [PATCH 017/126] fix: a client connection with no timeout must survive
 waiting for both i/o and time

---
 pyslet/http/client.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/pyslet/http/client.py b/pyslet/http/client.py
index 3db3ac5..4526a8e 100644
--- a/pyslet/http/client.py
+++ b/pyslet/http/client.py
@@ -390,7 +390,8 @@ class Connection(SortableMixin):
                     break
                 self.manager._deactivate_connection(self)
                 break
-        if (rbusy or wbusy) and (tbusy is None or tbusy > self.timeout):
+        if (rbusy or wbusy) and self.timeout is not None and (
+                tbusy is None or tbusy > self.timeout):
             # waiting for i/o, make sure the timeout is capped
             tbusy = self.timeout
         if rbusy:
-- 
2.43.0


From a3cdc932a0499d2f8d4b7318ec5d5a136491162f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:12:55 +0000
Subject: [PATCH 018/126] fix: the HTTP client must accept a 2xx response that
 arrives before the request is sent

---
 pyslet/http/client.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pyslet/http/client.py b/pyslet/http/client.py
index 4526a8e..f4fdcfe 100644
--- a/pyslet/http/client.py
+++ b/pyslet/http/client.py
@@ -1925,7 +1925,7 @@ class ClientRequest(messages.Request):
                         self.connection.request_disconnect()
                     # else, we were finished anyway... the connection will
                     # discover this itself
-                elif self.response >= 200:
+                elif self.status >= 200:
                     # For 2xx result codes we let the connection finish
                     # spooling and disconnect from us when it is done
                     pass
-- 
2.43.0


From d9139cd7b295b841094a7cb46c0532223d1407df Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:12:55 +0000
Subject: [PATCH 019/126] fix: the HTTP client must hang up when an error
 response interrupts a request body

---
 pyslet/http/client.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/pyslet/http/client.py b/pyslet/http/client.py
index f4fdcfe..69d2693 100644
--- a/pyslet/http/client.py
+++ b/pyslet/http/client.py
@@ -1919,7 +1919,8 @@ class ClientRequest(messages.Request):
                 # finished with us
                 if self.status >= 300:
                     # Some type of error condition....
-                    if isinstance(self.send_body(), str):
+                    data = self.send_body()
+                    if data is None or data:
                         # There was more data to send in the request but we
                         # don't plan to send it so we have to hang up!
                         self.connection.request_disconnect()
-- 
2.43.0


From 219e370e38250db536d80b6f03df18986279eef6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:13:28 +0000
Subject: [PATCH 020/126] fix: the HTTP client must not present a truncated
 response as complete

---
 pyslet/http/client.py | 15 +++++++++++++--
 1 file changed, 13 insertions(+), 2 deletions(-)

diff --git a/pyslet/http/client.py b/pyslet/http/client.py
index 69d2693..846b6e6 100644
--- a/pyslet/http/client.py
+++ b/pyslet/http/client.py
@@ -1868,7 +1868,7 @@ class ClientRequest(messages.Request):
         # called when the response has been received
         self.status = self.response.status
         self.error = err
-        if self.status is None:
+        if self.status is None or err is not None:
             logging.error("Error receiving response, %s", str(self.error))
             self.status = 0
             self.finished()
@@ -2024,9 +2024,20 @@ class ClientResponse(messages.Response):
 
         Called when the server disconnects before we've completed
         reading the response.  Note that if we are reading forever this
-        may be expected behaviour and *err* may be None.
+        may be expected behaviour and *err* may be None.  In all other
+        cases a response that has been cut short is an error.
 
         We pass this information on to the request."""
+        if err is None:
+            if (self.status is not None and
+                    self.transfermode == self.DATA_MODE and
+                    self.transferlength is None and
+                    not self.transferchunked):
+                # we were reading until the connection closed
+                self.recv(b'')
+                return
+            err = messages.HTTPException(
+                "connection closed before the end of the response")
         if err is not None:
             self.reason = str(err)
         self.request.response_finished(err)
-- 
2.43.0


From 75618d98eb2cf946b69179e89b553cf06c0551c3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:13:28 +0000
Subject: [PATCH 021/126] fix: the HTTP client must not take a connection error
 for the end of a response

---
 pyslet/http/client.py | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/pyslet/http/client.py b/pyslet/http/client.py
index 846b6e6..a3765e7 100644
--- a/pyslet/http/client.py
+++ b/pyslet/http/client.py
@@ -835,9 +835,12 @@ class Connection(SortableMixin):
                 # we're blocked on recv
                 return (False, True, False)
             # We can't truly tell if the server hung-up except by
-            # getting an error here so this error could be fairly benign.
+            # getting an error here so this error could be fairly benign
+            # but we can't mistake it for the end of a response that is
+            # terminated by the server closing the connection
             logging.warning("socket.recv raised %s", str(err))
-            data = None
+            self.close(err)
+            return (True, False, False)
         logging.debug("Reading from %s: \n%s", self.host, repr(data))
         if data:
             nbytes = len(data)
-- 
2.43.0


From f22ed3decf093732ffb9fed0a5fc569b2d1175e7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:13:54 +0000
Subject: [PATCH 022/126] fix: a request queued behind another must not inherit
 the status of its previous response

---
 pyslet/http/client.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/pyslet/http/client.py b/pyslet/http/client.py
index a3765e7..4c94963 100644
--- a/pyslet/http/client.py
+++ b/pyslet/http/client.py
@@ -715,6 +715,8 @@ class Connection(SortableMixin):
                       self.MODE_STRINGS[self.request_mode])
         if self.response:
             # Queue a response as we're still handling the last one!
+            # Forget the outcome of any previous attempt
+            request.response.set_status(None)
             self.response_queue.append(request.response)
         else:
             # if there is no response, we may have been idle for some
-- 
2.43.0


From 88d028a1403221c5f69e2854645101f6b296dae3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:13:54 +0000
Subject: [PATCH 023/126] fix: a pipelined response that arrives with the
 previous one must be processed

---
 pyslet/http/client.py | 18 +++++++++++-------
 1 file changed, 11 insertions(+), 7 deletions(-)

diff --git a/pyslet/http/client.py b/pyslet/http/client.py
index 4c94963..1c05a9d 100644
--- a/pyslet/http/client.py
+++ b/pyslet/http/client.py
@@ -179,6 +179,8 @@ class Connection(SortableMixin):
         self.sent_bytes = 0
         self.recv_buffer = []
         self.recv_buffer_size = 0
+        # True if recv_buffer holds data we have not processed yet
+        self.recv_pending = False
 
     def thread_target_key(self):
         return (self.thread_id, self.scheme, self.host, self.port)
@@ -360,6 +362,7 @@ class Connection(SortableMixin):
                                 self.response = self.response_queue[0]
                                 self.response_queue = self.response_queue[1:]
                                 self.response.start_receiving()
+                                self.recv_pending = bool(self.recv_buffer)
                             elif self.response:
                                 self.response = None
                                 if self.request_mode == self.CLOSE_WAIT:
@@ -662,6 +665,7 @@ class Connection(SortableMixin):
         self.sent_bytes = 0
         self.recv_buffer = []
         self.recv_buffer_size = 0
+        self.recv_pending = False
         self.request_mode = self.REQ_READY
 
     def kill(self):
@@ -817,7 +821,10 @@ class Connection(SortableMixin):
         #   We ask the response what it is expecting and try and
         #   satisfy that, we return True when the response has been
         #   received completely, False otherwise"""
-        err = None
+        if self.recv_pending:
+            # the start of this response came with the end of the last one
+            self.recv_pending = False
+            return self._recv_response()
         try:
             data = self.socket.recv(io.DEFAULT_BUFFER_SIZE)
             self.last_rw = time.time()
@@ -854,6 +861,9 @@ class Connection(SortableMixin):
                           "data on ready to read socket", self.host)
             self.close()
             return (True, False, False)
+        return self._recv_response()
+
+    def _recv_response(self):
         # Now loop until we can't satisfy the response anymore (or the response
         # is done)
         while self.response is not None:
@@ -878,9 +888,6 @@ class Connection(SortableMixin):
                     lines = [l + grammar.CRLF for l in
                              data[0:pos + 2].split(grammar.CRLF)]
                     data = data[pos + 4:]
-                elif err:
-                    self.close(err)
-                    return (True, False, False)
                 elif pos < 0:
                     # We didn't find the data we wanted this time
                     break
@@ -900,9 +907,6 @@ class Connection(SortableMixin):
                 if pos >= 0:
                     line = data[0:pos + 2]
                     data = data[pos + 2:]
-                elif err:
-                    self.close(err)
-                    return (True, False, False)
                 else:
                     # We didn't find the data we wanted this time
                     break
-- 
2.43.0


From 1c4a1e5a86ea4cde5d759b64ee1b4c79dc94a361 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:13:54 +0000
Subject: [PATCH 024/126] fix: the HTTP client must not prefix a response with
 surplus data from the previous one

---
 pyslet/http/client.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/pyslet/http/client.py b/pyslet/http/client.py
index 1c05a9d..144b3f1 100644
--- a/pyslet/http/client.py
+++ b/pyslet/http/client.py
@@ -365,6 +365,10 @@ class Connection(SortableMixin):
                                 self.recv_pending = bool(self.recv_buffer)
                             elif self.response:
                                 self.response = None
+                                if self.recv_buffer:
+                                    # data nobody asked for, it must not
+                                    # become part of another response
+                                    close_connection = True
                                 if self.request_mode == self.CLOSE_WAIT:
                                     # no response and waiting to close the
                                     # connection
-- 
2.43.0


From 334d2e72e199ae8ed9c53458e75d96708aaa6cde Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:14:18 +0000
Subject: [PATCH 025/126] fix: answer one authentication challenge of a 401
 response at most once

---
 pyslet/http/client.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/pyslet/http/client.py b/pyslet/http/client.py
index 144b3f1..de2f1ee 100644
--- a/pyslet/http/client.py
+++ b/pyslet/http/client.py
@@ -1988,12 +1988,13 @@ class ClientRequest(messages.Request):
                 self.resend(location)
         elif self.status == 401:
             challenges = self.response.get_www_authenticate()
-            for c in challenges:
+            for c in challenges or ():
                 c.protectionSpace = self.url.get_canonical_root()
                 self.tried_credentials = self.manager.find_credentials(c)
                 if self.tried_credentials:
                     self.set_authorization(self.tried_credentials)
                     self.resend()  # to the same URL
+                    break
 
 
 class ClientResponse(messages.Response):
-- 
2.43.0


From 2556ebe4cc566e8fe8f37ada8ddcdf6a74de12b6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:14:18 +0000
Subject: [PATCH 026/126] fix: Client.remove_credentials must not raise
 IndexError

---
 pyslet/http/client.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/pyslet/http/client.py b/pyslet/http/client.py
index de2f1ee..54fe6c9 100644
--- a/pyslet/http/client.py
+++ b/pyslet/http/client.py
@@ -1589,6 +1589,7 @@ class Client(PEP8Compatibility, object):
             for i in range3(len(self.credentials)):
                 if self.credentials[i] is credentials:
                     del self.credentials[i]
+                    break
 
     def dnslookup(self, host, port):
         """Given a host name (string) and a port number performs a DNS lookup
-- 
2.43.0


From 8f5202ea31ec9f69ae09775436c068557e2e2790 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:14:19 +0000
Subject: [PATCH 027/126] fix: a ClientRequest is not finished by an interim
 response

---
 pyslet/http/client.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pyslet/http/client.py b/pyslet/http/client.py
index 54fe6c9..bb742b2 100644
--- a/pyslet/http/client.py
+++ b/pyslet/http/client.py
@@ -1860,7 +1860,7 @@ class ClientRequest(messages.Request):
         else:
             self.max_retries = 0
         self.connection = None
-        if self.status > 0:
+        if self.status >= 200 or self.status == 101:
             # The response has finished
             self.finished()
 
-- 
2.43.0


From 3e9d1c878bea2018e3ad7fd9e3d85ae5fb0ada09 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:14:19 +0000
Subject: [PATCH 028/126] fix: closing the HTTP client must release threads
 waiting for a connection

---
 pyslet/http/client.py | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/pyslet/http/client.py b/pyslet/http/client.py
index bb742b2..5b2818a 100644
--- a/pyslet/http/client.py
+++ b/pyslet/http/client.py
@@ -1268,9 +1268,9 @@ class Client(PEP8Compatibility, object):
             thread_id, request.scheme, request.hostname, request.port)
         target = (request.scheme, request.hostname, request.port)
         with self.managerLock:
-            if self.closing.is_set():
-                raise ConnectionClosed
             while True:
+                if self.closing.is_set():
+                    raise ConnectionClosed
                 # Step 1: search for an active connection to the same
                 # target already bound to our thread
                 if thread_target in self.cActiveThreadTargets:
@@ -1561,6 +1561,8 @@ class Client(PEP8Compatibility, object):
         while True:
             with self.managerLock:
                 self.closing.set()
+                # release any threads waiting for a connection
+                self.managerLock.notify_all()
                 if len(self.cActiveThreadTargets) + len(self.cIdleList) == 0:
                     break
             self.active_cleanup(0)
-- 
2.43.0


From a661856e86ad0be22f2296c94df984631474ded0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:14:19 +0000
Subject: [PATCH 029/126] fix: Client.queue_request must not wait longer than
 its time-out

---
 pyslet/http/client.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/pyslet/http/client.py b/pyslet/http/client.py
index 5b2818a..ad25bbf 100644
--- a/pyslet/http/client.py
+++ b/pyslet/http/client.py
@@ -1305,14 +1305,15 @@ class Client(PEP8Compatibility, object):
                             "non-blocking call to queue_request failed to "
                             "obtain an HTTP connection")
                         raise RequestManagerBusy
-                    elif timeout is not None and now > start + timeout:
+                    elif timeout is not None and now >= start + timeout:
                         logging.warning(
                             "queue_request timed out while waiting for "
                             "an HTTP connection")
                         raise RequestManagerBusy
                     logging.debug(
                         "queue_request forced to wait for an HTTP connection")
-                    self.managerLock.wait(timeout)
+                    self.managerLock.wait(
+                        None if timeout is None else start + timeout - now)
                     logging.debug(
                         "queue_request resuming search for an HTTP connection")
             # add this request to the queue on the connection
-- 
2.43.0


From 261f1681b04e3354be609fcb1fe52b642e3beee2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:14:19 +0000
Subject: [PATCH 030/126] fix: upgrading a connection must make room for a
 thread waiting for one

---
 pyslet/http/client.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/pyslet/http/client.py b/pyslet/http/client.py
index ad25bbf..5d0d4d2 100644
--- a/pyslet/http/client.py
+++ b/pyslet/http/client.py
@@ -1384,6 +1384,8 @@ class Client(PEP8Compatibility, object):
         with self.managerLock:
             if thread_target in self.cActiveThreadTargets:
                 del self.cActiveThreadTargets[thread_target]
+                # tell any threads waiting for a connection
+                self.managerLock.notify()
             if connection.thread_id in self.cActiveThreads:
                 if connection.id in self.cActiveThreads[connection.thread_id]:
                     del self.cActiveThreads[
-- 
2.43.0


From e913020ef81b61a08076730098abeb317a6302eb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:14:19 +0000
Subject: [PATCH 031/126] fix: Client.thread_task must not block longer than
 its time-out

---
 pyslet/http/client.py | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/pyslet/http/client.py b/pyslet/http/client.py
index 5d0d4d2..667759a 100644
--- a/pyslet/http/client.py
+++ b/pyslet/http/client.py
@@ -1460,11 +1460,11 @@ class Client(PEP8Compatibility, object):
             except Exception as err:
                 c.close(err)
                 pass
+        if timeout is not None and (
+                (readers or writers) if wait_time is None
+                else timeout < wait_time):
+            wait_time = timeout
         if readers or writers:
-            if timeout is not None:
-                if wait_time is not None:
-                    if timeout < wait_time:
-                        wait_time = timeout
             try:
                 logging.debug("thread_task waiting for select: "
                               "readers=%s, writers=%s, timeout=%s",
-- 
2.43.0


From 688f937d109c0b8b17f41adc2f165607f39a2c4a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:14:42 +0000
Subject: [PATCH 032/126] fix: a new request must not inherit the time-out of
 an idle connection

---
 pyslet/http/client.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/pyslet/http/client.py b/pyslet/http/client.py
index 667759a..b2e597a 100644
--- a/pyslet/http/client.py
+++ b/pyslet/http/client.py
@@ -731,6 +731,7 @@ class Connection(SortableMixin):
             # time, check the connection...
             if self.socket:
                 self._check_socket()
+            self.last_rw = time.time()
             self.response = request.response
             self.response.start_receiving()
         return True
-- 
2.43.0


From 59733ff011f00d95244e6a2e3f32c21ceb26acf1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:14:42 +0000
Subject: [PATCH 033/126] fix: report a failed name look-up as such

---
 pyslet/http/client.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/pyslet/http/client.py b/pyslet/http/client.py
index b2e597a..a08aeb9 100644
--- a/pyslet/http/client.py
+++ b/pyslet/http/client.py
@@ -972,6 +972,7 @@ class Connection(SortableMixin):
             self.socket = None
             self.socket_file = None
             self.socketSelect = select.select
+        snew = None
         try:
             for target in self.manager.dnslookup(self.host, self.port):
                 family, socktype, protocol, canonname, address = target
@@ -985,9 +986,8 @@ class Connection(SortableMixin):
                     continue
                 break
         except socket.gaierror as e:
-            snew = None
             raise messages.HTTPException(
-                "failed to connect to %s (%s)" % (self.host, e[1]))
+                "failed to connect to %s (%s)" % (self.host, e.args[-1]))
         if not snew:
             raise messages.HTTPException("failed to connect to %s" % self.host)
         else:
-- 
2.43.0


From 4e679fb6f108c0db2b3b9cad1cfddb500a7b2f12 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:18:50 +0000
Subject: [PATCH 034/126] fix: the HTTP server must not hold its lock while it
 calls the application

---
 pyslet/http/server.py | 17 +++++++++--------
 1 file changed, 9 insertions(+), 8 deletions(-)

diff --git a/pyslet/http/server.py b/pyslet/http/server.py
index 9f94287..355d699 100755
--- a/pyslet/http/server.py
+++ b/pyslet/http/server.py
@@ -716,18 +716,19 @@ class Server(socketserver.ThreadingMixIn, socketserver.TCPServer):
             authority = environ.get('HTTP_HOST', self.default_authority)
             try:
                 app = self.authorities[authority]
-                if app is None:
-                    # this implementation mainly for testing, we want to read
-                    # all the data from the input string
-                    response_headers = []
-                    start_response("404 Page Not Found", response_headers)
-                    return []
-                else:
-                    return app(environ, start_response)
             except KeyError:
                 # bad host in request
                 start_response("400 Bad Request", [])
                 return []
+        if app is None:
+            # this implementation mainly for testing, we want to read
+            # all the data from the input string
+            response_headers = []
+            start_response("404 Page Not Found", response_headers)
+            return []
+        else:
+            # don't hold the lock or one app would block all connections
+            return app(environ, start_response)
 
     def get_request(self):
         """Adds logging of socket errors on connect
-- 
2.43.0


From 2af1aaa89245dcc93631abf74c34fb968ea9fb00 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:18:50 +0000
Subject: [PATCH 035/126] fix: the HTTP server must refuse connections in
 excess of its maximum with a 503 response

---
 pyslet/http/server.py | 10 +++++-----
 1 file changed, 5 insertions(+), 5 deletions(-)

diff --git a/pyslet/http/server.py b/pyslet/http/server.py
index 355d699..45000a4 100755
--- a/pyslet/http/server.py
+++ b/pyslet/http/server.py
@@ -575,9 +575,9 @@ class Connection(socketserver.BaseRequestHandler):
     def service_unavailable(self):
         # return a 503 response
         write_socket(self.request,
-                     "HTTP/1.1 503 Service Unavailable\r\n"
-                     "Connection: close\r\n"
-                     "\r\n",
+                     b"HTTP/1.1 503 Service Unavailable\r\n"
+                     b"Connection: close\r\n"
+                     b"\r\n",
                      self.server.connection_timeout)
 
 
@@ -682,7 +682,7 @@ class Server(socketserver.ThreadingMixIn, socketserver.TCPServer):
         # add this connection to the queue
         with self.lock:
             if (self.con_max is not None and
-                    len(self.connections) > self.con_max):
+                    len(self.connections) >= self.con_max):
                 # refuse this connection, we're too busy
                 connection.id = 0
             else:
@@ -739,7 +739,7 @@ class Server(socketserver.ThreadingMixIn, socketserver.TCPServer):
         try:
             return socketserver.TCPServer.get_request(self)
         except socket.error as e:
-            logging.errror("Server socket error %s", repr(e))
+            logging.error("Server socket error %s", repr(e))
             raise
 
     def handle_timeout(self):
-- 
2.43.0


From 8e842d21661c0bd7ae8c16a4c6bdfdaa9a9fe90b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:18:50 +0000
Subject: [PATCH 036/126] fix: the HTTP server must not lose pipelined requests
 or fail on data read with the headers

---
 pyslet/http/server.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/pyslet/http/server.py b/pyslet/http/server.py
index 45000a4..07200a0 100755
--- a/pyslet/http/server.py
+++ b/pyslet/http/server.py
@@ -278,6 +278,7 @@ class Connection(socketserver.BaseRequestHandler):
         # these pipes are for the entity body, not the message body! in
         # otherwords, they deal with data after transfer encodings have
         # been removed
+        buffstr = b''
         try:
             while not self.finished.is_set():
                 logging.debug("handle_request: reading request...")
@@ -285,7 +286,6 @@ class Connection(socketserver.BaseRequestHandler):
                 rflag = CascadingEvent()
                 request.recv_pipe.set_rflag(rflag)
                 request.start_receiving()
-                buffstr = b''
                 timeout = self.server.idle_timeout
                 send_continue = False
                 send_continue_start = 0
@@ -350,7 +350,7 @@ class Connection(socketserver.BaseRequestHandler):
                                 request.recv(data)
                             elif buffstr:
                                 request.recv(buffstr)
-                                buffstr = ''
+                                buffstr = b''
                             else:
                                 # read some data from the socket
                                 data = read_socket(self.request, mode,
@@ -365,7 +365,7 @@ class Connection(socketserver.BaseRequestHandler):
                             # unlimited read from the socket
                             if buffstr:
                                 request.recv(buffstr)
-                                buffstr = ''
+                                buffstr = b''
                             else:
                                 data = read_socket(self.request,
                                                    io.DEFAULT_BUFFER_SIZE,
-- 
2.43.0


From 3c88965879985e7aad641160df6847ec87480f11 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:18:50 +0000
Subject: [PATCH 037/126] fix: HTTP server protocol errors must be raised as
 such

---
 pyslet/http/server.py | 10 +++++-----
 1 file changed, 5 insertions(+), 5 deletions(-)

diff --git a/pyslet/http/server.py b/pyslet/http/server.py
index 07200a0..ae2f52f 100755
--- a/pyslet/http/server.py
+++ b/pyslet/http/server.py
@@ -112,7 +112,7 @@ def split_socket(s, buffstr=b'', timeout=None,
             line = bytes(buffer[rpos:end + 2])
             if len(line) > maxline:
                 raise messages.HTTPException(
-                    "max line length exceeded: %s..." + line[0:64])
+                    "max line length exceeded: %s..." % repr(line[0:64]))
             lines.append(line)
             rpos = end + 2
             if line == grammar.CRLF:
@@ -172,8 +172,8 @@ def split_socket1(s, buffstr=b'', timeout=None, maxline=MAX_HEADER_LINE):
             # not found, fill the buffer with data
             pass
         if len(buffer) >= maxline:
-            raise HTTPException("max line length exceeded: %s..." +
-                                buffer[0:64])
+            raise messages.HTTPException("max line length exceeded: %s..." %
+                                         repr(bytes(buffer[0:64])))
         data = read_socket(s, maxline - len(buffer), timeout=timeout)
         if not data:
             return None, bytes(buffer)
@@ -334,7 +334,7 @@ class Connection(socketserver.BaseRequestHandler):
                             if line is None:
                                 # hang up
                                 if request.method:
-                                    raise ProtocolError("Unexpected EOM")
+                                    raise messages.ProtocolError("Unexpected EOM")
                                 else:
                                     # client hung up
                                     logging.debug("client hang up detected")
@@ -358,7 +358,7 @@ class Connection(socketserver.BaseRequestHandler):
                                 if data is None:
                                     # client hang up when we expected
                                     # more data
-                                    raise ProtocolError(
+                                    raise messages.ProtocolError(
                                         "Unexpected EOM in data")
                                 request.recv(data)
                         elif mode == request.RECV_ALL:
-- 
2.43.0


From 7a76a4e521fc408fa2a41d128e363ae8adc88762 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:19:49 +0000
Subject: [PATCH 038/126] fix: the HTTP server must retry a socket that was not
 ready after all

---
 pyslet/http/server.py | 49 ++++++++++++++++++++++++-------------------
 1 file changed, 28 insertions(+), 21 deletions(-)

diff --git a/pyslet/http/server.py b/pyslet/http/server.py
index ae2f52f..61b0b51 100755
--- a/pyslet/http/server.py
+++ b/pyslet/http/server.py
@@ -13,7 +13,7 @@ import time
 from .. import rfc2396 as uri
 from ..py2 import py2, dict_items
 from ..py26 import *       # noqa
-from ..streams import Pipe
+from ..streams import Pipe, io_blocked
 
 from . import grammar, messages, params
 
@@ -198,26 +198,30 @@ def read_socket(s, nbytes, timeout=None):
     This method has three outcomes, a data string is returned, None is
     returned (client hung up) or an IOError is raised indicating a
     timeout."""
-    try:
-        r, w, e = select.select([s], [], [], timeout)
-        if not r:
-            logging.info("socket timeout on recv")
-            raise IOError(errno.ETIMEDOUT, os.strerror(errno.ETIMEDOUT),
-                          "select in pyslet.http.messages.read_socket")
-    except select.error as err:
-        logging.error("Socket error from select: %s", str(err))
-        raise IOError(err.args[0], err.args[1])
-    try:
-        data = s.recv(nbytes)
-        # if data is empty the other end has hung up
-        if data == b'' and nbytes > 0:
+    while True:
+        try:
+            r, w, e = select.select([s], [], [], timeout)
+            if not r:
+                logging.info("socket timeout on recv")
+                raise IOError(errno.ETIMEDOUT, os.strerror(errno.ETIMEDOUT),
+                              "select in pyslet.http.messages.read_socket")
+        except select.error as err:
+            logging.error("Socket error from select: %s", str(err))
+            raise IOError(err.args[0], err.args[1])
+        try:
+            data = s.recv(nbytes)
+            # if data is empty the other end has hung up
+            if data == b'' and nbytes > 0:
+                return None
+            return data
+        except socket.error as err:
+            if io_blocked(err):
+                # not ready after all
+                continue
+            # error raised on recv ready socket indicates a hang-up
+            # typically: i.e., no more data to come
+            logging.info("Error raised on recv ready socket")
             return None
-        return data
-    except socket.error:
-        # error raised on recv ready socket indicates a hang-up
-        # typically: i.e., no more data to come
-        logging.info("Error raised on recv ready socket")
-        return None
 
 
 def write_socket(s, data, timeout=None):
@@ -256,7 +260,10 @@ def write_socket(s, data, timeout=None):
                 # more typically represented by socket.error caught below
                 logging.info("Send failed on send-ready socket")
                 raise IOError(errno.EPIPE, os.strerror(errno.EPIPE))
-        except socket.error:
+        except socket.error as err:
+            if io_blocked(err):
+                # not ready after all
+                continue
             # error raised on recv ready socket indicates a hang-up
             # typically: i.e., no more data to come
             logging.info("Error raised on send-ready socket")
-- 
2.43.0


From 67dbae1cd2a7ea252b25e66a75cfd52e786e7945 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:22:07 +0000
Subject: [PATCH 039/126] fix: the HTTP server must not present an incomplete
 request body as complete

---
 pyslet/http/server.py | 54 +++++++++++++++++++++++++++++++++++--------
 1 file changed, 45 insertions(+), 9 deletions(-)

diff --git a/pyslet/http/server.py b/pyslet/http/server.py
index 61b0b51..8ae844c 100755
--- a/pyslet/http/server.py
+++ b/pyslet/http/server.py
@@ -270,6 +270,32 @@ def write_socket(s, data, timeout=None):
             return None
 
 
+class BodyPipe(Pipe):
+
+    """A Pipe that distinguishes the end of the data from a failure
+
+    After a call to :meth:`abort` the data already in the pipe can still
+    be read but the reader then sees an IOError instead of an end of
+    file that would make incomplete data look complete."""
+
+    def __init__(self, *args, **kwargs):
+        super(BodyPipe, self).__init__(*args, **kwargs)
+        self.aborted = False
+
+    def abort(self):
+        """Ends the data abnormally, no more data will follow"""
+        with self.lock:
+            self.aborted = True
+            self.write_eof()
+
+    def readinto(self, b):
+        nbytes = super(BodyPipe, self).readinto(b)
+        if nbytes == 0 and len(b) and self.aborted:
+            raise IOError(errno.EPIPE, os.strerror(errno.EPIPE),
+                          "pyslet.http.server.BodyPipe.readinto")
+        return nbytes
+
+
 class Connection(socketserver.BaseRequestHandler):
 
     def handle(self):
@@ -306,7 +332,10 @@ class Connection(socketserver.BaseRequestHandler):
                             # doesn't just hang
                             logging.debug("%s : request complete",
                                           request.get_start())
-                            request.recv_pipe.write_eof()
+                            if mode is None:
+                                request.recv_pipe.write_eof()
+                            else:
+                                request.recv_pipe.abort()
                             break
                         if send_continue:
                             if not rflag.is_set():
@@ -459,9 +488,12 @@ class Connection(socketserver.BaseRequestHandler):
                     response.set_content_length(len(txt))
                     response.write_response(txt)
                     self.finished.set()
-                # we've finished reading the message, close the recv_pipe
-                # to help clean things up quickly
-                request.recv_pipe.close()
+                # we've finished reading the message, unless we've read
+                # all of it make sure that the application finds out.
+                # We can't close the recv_pipe as the application may
+                # not have seen the end of the data yet.
+                if request.recv_mode() is not None:
+                    request.recv_pipe.abort()
                 if not request.keep_alive or request.response is None:
                     # the request wants us to close the connection or
                     # the client has hung up (or something has gone
@@ -760,10 +792,10 @@ class ServerRequest(messages.Request):
         self.connection = connection
         # the body won't block on write, but will block on read for up
         # to connection_timeout (as the data is coming from outside).
-        self.recv_pipe = Pipe(wblocking=False,
-                              timeout=connection.server.connection_timeout,
-                              name="ServerRequest[%i].recv_pipe" %
-                              self.connection.id)
+        self.recv_pipe = BodyPipe(
+            wblocking=False,
+            timeout=connection.server.connection_timeout,
+            name="ServerRequest[%i].recv_pipe" % self.connection.id)
         self.aborted = CascadingEvent()
         super(ServerRequest, self).__init__(entity_body=self.recv_pipe,
                                             **kwargs)
@@ -902,7 +934,11 @@ class ServerResponse(messages.Response):
             # request it will also generate an EOF on the input stream.
             # We'll stop at whichever is detected first!
             logging.debug("reading trailing data...")
-            data = input.read1(io.DEFAULT_BUFFER_SIZE)
+            try:
+                data = input.read1(io.DEFAULT_BUFFER_SIZE)
+            except (IOError, ValueError):
+                # incomplete request or closed by the application
+                break
             if data:
                 if spool_count < io.DEFAULT_BUFFER_SIZE:
                     logging.warning(
-- 
2.43.0


From 46d8eefc8706403ef1b3af9b7e974b8a90984f1f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:23:36 +0000
Subject: [PATCH 040/126] fix: the HTTP server's environ must describe the
 decoded request

---
 pyslet/http/server.py | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/pyslet/http/server.py b/pyslet/http/server.py
index 8ae844c..8dda3ad 100755
--- a/pyslet/http/server.py
+++ b/pyslet/http/server.py
@@ -840,8 +840,10 @@ class ServerRequest(messages.Request):
                 environ['CONTENT_LENGTH'] = content_length
             for hname, hvalue in dict_items(self.headers):
                 hname = hname.replace(b"-", b"_").decode('iso-8859-1')
-                environ['HTTP_' + hname.upper()] = hvalue[1].decode(
-                    'iso-8859-1')
+                environ['HTTP_' + hname.upper()] = b", ".join(
+                    hvalue[1:]).decode('iso-8859-1')
+            # wsgi.input has no transfer encoding
+            environ.pop('HTTP_TRANSFER_ENCODING', None)
         # now launch the application in a separate thread
         response = ServerResponse(
             request=self, protocol=self.connection.server.protocol)
-- 
2.43.0


From 69d3187095dfb07963f672df87a6cd3f417ede4f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:39:23 +0000
Subject: [PATCH 041/126] fix: the HTTP server must respond promptly and
 correctly when an application fails

---
 pyslet/http/server.py | 103 +++++++++++++++++++++++++++++++++---------
 1 file changed, 82 insertions(+), 21 deletions(-)

diff --git a/pyslet/http/server.py b/pyslet/http/server.py
index 8dda3ad..ed6d02d 100755
--- a/pyslet/http/server.py
+++ b/pyslet/http/server.py
@@ -854,14 +854,19 @@ class ServerRequest(messages.Request):
 
 class ServerResponse(messages.Response):
 
+    #: the maximum size of an error message generated by the server
+    MAX_ERROR = 1024
+
     def __init__(self, request, **kwargs):
         self.connection = request.connection
         # the body won't block on read, but will block on write for up
         # to connection_timeout (as the data is being sent outside).
-        self.send_pipe = Pipe(
+        self.send_pipe = BodyPipe(
             rblocking=False,
             timeout=request.connection.server.connection_timeout,
             name="ServerResponse[%i].send_pipe" % self.connection.id)
+        #: True when everything has been written to the send_pipe
+        self.complete = False
         #: a CascadingEvent set when the response headers are sent
         self.ready_to_send = CascadingEvent()
         self.send_continue = CascadingEvent()
@@ -872,9 +877,66 @@ class ServerResponse(messages.Response):
         super(ServerResponse, self).start_sending()
         self.ready_to_send.set()
 
+    def _start_response(self, body_len):
+        # starts sending unless we've started already
+        with self.lock:
+            if not self.ready_to_send.is_set():
+                self.body_len = 0 if self.no_body() else body_len
+                self.start_sending()
+
     def launch_app(self, environ):
+        try:
+            self._run_app(environ)
+        except Exception as e:
+            logging.exception("wsgi application failed")
+            if not self.fail(500, str(e)) and not self.complete:
+                # too late to change the response, abandon it
+                self.send_pipe.abort()
+
+    def fail(self, status, message):
+        """Sends an error response instead of the application's
+
+        Returns True if the error response will be sent and False if it
+        is too late because the response has already been started.
+        Either way, the connection is closed after this response."""
+        with self.lock:
+            self.clear_keep_alive()
+            if self.ready_to_send.is_set():
+                return False
+            self.headers = {}
+            self.set_status(status)
+            data = b'' if self.no_body() else message.encode(
+                'iso-8859-1', 'backslashreplace')[:self.MAX_ERROR]
+            self.set_content_type(params.PLAIN_TEXT)
+            self.body_len = len(data)
+            self.start_sending()
+            # a race condition can't leave us dead-locked as the pipe is
+            # empty, after that it won't take data from the application
+            if data:
+                self.send_pipe.write(data)
+            self.send_pipe.write_eof()
+            self.complete = True
+            return True
+
+    def no_body(self):
+        """Returns True if this response must not have a body"""
+        return (self.request.method == "HEAD" or
+                (self.status is not None and
+                 (self.status // 100 == 1 or self.status in (204, 304))))
+
+    def _run_app(self, environ):
         logging.debug("Calling wsgi application...")
         data = self.connection.server.launch_app(environ, self.start_response)
+        try:
+            self._send_data(data)
+        finally:
+            if hasattr(data, 'close'):
+                data.close()
+        # HTTP requires us to read the entire input pipe even if
+        # we didn't use all the data, so do that here.
+        self._discard_input(environ['wsgi.input'])
+
+    def _send_data(self, data):
         # does data support len?
         try:
             datalen = len(data)
@@ -885,14 +947,10 @@ class ServerResponse(messages.Response):
             if not isinstance(item, bytes):
                 logging.error("WSGI application yielded non bytes: %s",
                               repr(item))
-            if datalen == 1:
-                # this is all the data, set the body_len
-                self.body_len = len(item)
-            if not self.ready_to_send.is_set():
-                # don't send the headers until the first bit of data
-                # has been yielded
-                self.start_sending()
-            wbytes = item
+            # don't send the headers until the first bit of data
+            # has been yielded, if this is all the data set the body_len
+            self._start_response(len(item) if datalen == 1 else None)
+            wbytes = None if self.no_body() else item
             while wbytes:
                 nbytes = self.send_pipe.write(wbytes)
                 if nbytes < len(wbytes):
@@ -914,17 +972,16 @@ class ServerResponse(messages.Response):
             # waiting for the next block (or a final flush).  Rather
             # than conclude that WSGI is incompatible with transparent
             # transport encodings we're going to ignore this issue.
-        if not self.ready_to_send.is_set():
-            # empty response, send it now
-            self.body_len = 0
-            self.start_sending()
+        # if this is an empty response, send it now
+        self._start_response(0)
         # when we are done writing data to the send_pipe we tell the
         # response that there is no more in case the body length was
         # indeterminate and the reader is reading forever
-        self.send_pipe.write_eof()
-        # HTTP requires us to read the entire input pipe even if
-        # we didn't use all the data, so do that here.
-        input = environ['wsgi.input']
+        with self.lock:
+            self.send_pipe.write_eof()
+            self.complete = True
+
+    def _discard_input(self, input):
         # we are limited in the methods we are allowed to use here
         # except that we know it is a BufferedReader over a Pipe object
         # set for read blocking up to the connection timeout
@@ -953,6 +1010,8 @@ class ServerResponse(messages.Response):
 
     def start_response(self, status, response_headers, exc_info=None):
         with self.lock:
+            if self.ready_to_send.is_set():
+                raise UnresponsiveScript("response already started")
             pstatus = params.ParameterParser(status, ignore_sp=False)
             if pstatus.is_integer():
                 self.status = pstatus.parse_integer()
@@ -960,14 +1019,16 @@ class ServerResponse(messages.Response):
                 self.status = 0
             pstatus.parse_sp()
             self.reason = pstatus.parse_remainder().decode('iso-8859-1')
+            self.headers = {}
             for name, value in response_headers:
-                self.set_header(name, value)
+                self.set_header(name, value, append_mode=True)
         return self.write_response
 
     def write_response(self, body_data):
-        if not self.ready_to_send.is_set():
-            # start sending the response, we've got legacy data
-            self.start_sending()
+        # start sending the response, we've got legacy data
+        self._start_response(None)
+        if self.no_body():
+            return
         while body_data:
             nbytes = self.send_pipe.write(body_data)
             if nbytes < len(body_data):
-- 
2.43.0


From 88c3fda69499dbb88c8a24317265bd3ef6249ef4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:39:23 +0000
Subject: [PATCH 042/126] fix: the HTTP server must send one response per
 request and always release the connection

---
 pyslet/http/server.py | 98 +++++++++++++++++++------------------------
 1 file changed, 44 insertions(+), 54 deletions(-)

diff --git a/pyslet/http/server.py b/pyslet/http/server.py
index ed6d02d..2ff0a7d 100755
--- a/pyslet/http/server.py
+++ b/pyslet/http/server.py
@@ -441,27 +441,9 @@ class Connection(socketserver.BaseRequestHandler):
                     # log this error as a warning
                     # push a suitable response and then
                     # hang up, no good will come of this connection
-                    response = ServerResponse(request=request,
-                                              protocol=self.server.protocol)
-                    self.responseq.put(response)
-                    response.set_status(400)
-                    response.clear_keep_alive()
-                    txt = str(e).encode('iso8859-1')
-                    response.set_content_type(params.PLAIN_TEXT)
-                    response.set_content_length(len(txt))
-                    response.write_response(txt)
-                    self.finished.set()
+                    self.fail_request(request, 400, e)
                 except NotImplementedError as e:
-                    response = ServerResponse(request=request,
-                                              protocol=self.server.protocol)
-                    self.responseq.put(response)
-                    response.set_status(501)
-                    response.clear_keep_alive()
-                    txt = str(e).encode('iso8859-1')
-                    response.set_content_type(params.PLAIN_TEXT)
-                    response.set_content_length(len(txt))
-                    response.write_response(txt)
-                    self.finished.set()
+                    self.fail_request(request, 501, e)
                 except IOError as e:
                     if request.method:
                         logging.warning("Unexpected EOM: %s; %s",
@@ -475,19 +457,8 @@ class Connection(socketserver.BaseRequestHandler):
                     # log this error as an internal server error push a
                     # suitable 500 response and then hang up because
                     # we've messed up
-                    response = ServerResponse(request=request,
-                                              protocol=self.server.protocol)
-                    self.responseq.put(response)
-                    response.set_status(500)
-                    response.clear_keep_alive()
-                    txt = str(e).encode('iso8859-1')
-                    # import traceback
-                    # txt = traceback.format_exc().encode('iso-8859-1')
-                    logging.error("%s: %s", response.request.get_start(), txt)
-                    response.set_content_type(params.PLAIN_TEXT)
-                    response.set_content_length(len(txt))
-                    response.write_response(txt)
-                    self.finished.set()
+                    logging.error("%s: %s", request.request_uri, e)
+                    self.fail_request(request, 500, e)
                 # we've finished reading the message, unless we've read
                 # all of it make sure that the application finds out.
                 # We can't close the recv_pipe as the application may
@@ -513,9 +484,25 @@ class Connection(socketserver.BaseRequestHandler):
             # socket may have timed-out while reading or waiting for a
             # request
             pass
-        # add a dummy response to kill the handle_responses thread
-        logging.debug("handle_request: terminating connection...")
-        self.responseq.put(None)
+        finally:
+            # add a dummy response to kill the handle_responses thread
+            logging.debug("handle_request: terminating connection...")
+            self.responseq.put(None)
+
+    def fail_request(self, request, status, err):
+        """Responds with an error instead of the application's response
+
+        There is only ever one response to each request so if the
+        application has already started to respond then we just hang up
+        after that response."""
+        request.clear_keep_alive()
+        response = request.response
+        if response is None:
+            response = ServerResponse(request=request,
+                                      protocol=self.server.protocol)
+            self.responseq.put(response)
+        response.fail(status, str(err))
+        self.finished.set()
 
     def handle_response(self, response):
         self.responseq.put(response)
@@ -524,6 +511,7 @@ class Connection(socketserver.BaseRequestHandler):
         # pull items from the responseq until we get None
         timeout = (self.server.connection_timeout +
                    self.server.app_timeout)
+        response = None
         try:
             keep_alive = True
             while keep_alive:
@@ -567,15 +555,9 @@ class Connection(socketserver.BaseRequestHandler):
                 if not response.ready_to_send.is_set():
                     # script timeout: generate a 500 error then kill
                     # this connection
-                    response.set_status(500)
-                    response.clear_keep_alive()
-                    # we can't risk writing data as a race condition
-                    # could leave us dead-locked waiting for the loop
-                    # below (that clears the response Pipe)
                     logging.error("%s: Application timeout",
                                   response.request.get_start())
-                    response.set_content_length(0)
-                    response.write_response('')
+                    response.fail(500, "Application timeout")
                 logging.debug("...sending response")
                 # send the response
                 keep_alive = response.keep_alive
@@ -605,7 +587,13 @@ class Connection(socketserver.BaseRequestHandler):
             # timeout waiting for a response object
             logging.error("HTTPServer: responseq timeout "
                           "(may indicate a stuck connection)")
-        self.finished.set()
+        except Exception as e:
+            # the response can't be completed, hang up
+            logging.error("HTTPServer: response abandoned: %s", str(e))
+            if response is not None:
+                response.close()
+        finally:
+            self.finished.set()
         logging.debug("handle_responses: done")
 
     def end(self):
@@ -729,16 +717,18 @@ class Server(socketserver.ThreadingMixIn, socketserver.TCPServer):
                 connection.id = self.con_count
                 self.connections[connection.id] = connection
         if connection.id:
-            connection.begin()
-            t = threading.Thread(target=connection.handle_responses)
-            t.start()
-            connection.handle_requests()
-            # now when we are done handling requests we just wait
-            # for the responses thread to finish
-            t.join()
-            # end of this connection
-            connection.end()
-            self.stop_connection(connection)
+            try:
+                connection.begin()
+                t = threading.Thread(target=connection.handle_responses)
+                t.start()
+                connection.handle_requests()
+                # now when we are done handling requests we just wait
+                # for the responses thread to finish
+                t.join()
+                # end of this connection
+                connection.end()
+            finally:
+                self.stop_connection(connection)
         else:
             connection.service_unavailable()
 
-- 
2.43.0


From 1c4a98afe077b69adbb363109eaa925e4a54ce9f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:59:14 +0000
Subject: [PATCH 043/126] fix: the flush at the end of a message read until the
 connection closes may block

---
 pyslet/http/messages.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/pyslet/http/messages.py b/pyslet/http/messages.py
index 33ec338..4c6b0c1 100755
--- a/pyslet/http/messages.py
+++ b/pyslet/http/messages.py
@@ -882,7 +882,9 @@ class Message(PEP8Compatibility, object):
                     self._recv_buffered()
                 elif self.transferlength is None:
                     # end of the data in read until close mode
-                    self.transfermode = None
+                    self.transferlength = self.transferPos
+                    self.recv_buffer = None
+                    self._recv_buffered()
                 else:
                     raise ProtocolError("unexpected end of message body")
             elif self.transfermode == self.BLOCKED_MODE:
-- 
2.43.0


From 774db93f68afe3415f7fbd4787c94167e745ca48 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:59:14 +0000
Subject: [PATCH 044/126] fix: a request buffered for an HTTP/1.0 server must
 be resent from the start of its body

---
 pyslet/http/messages.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/pyslet/http/messages.py b/pyslet/http/messages.py
index 4c6b0c1..8202670 100755
--- a/pyslet/http/messages.py
+++ b/pyslet/http/messages.py
@@ -1609,6 +1609,8 @@ class Request(Message):
                 # server that is not known to speak HTTP/1.1
                 self.entity_body = BufferedStreamWrapper(
                     self.entity_body, self.MAX_READAHEAD)
+                # positions are now relative to the start of the buffer
+                self.body_start = 0
                 if self.entity_body.length is not None:
                     # small enough to be buffered, try again
                     logging.warning(
-- 
2.43.0


From adc5453b8abc4bb3faa70924405586266548a738 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:02:00 +0000
Subject: [PATCH 045/126] fix: an HTTP client thread must not wait for a
 connection while it holds one itself

---
 pyslet/http/client.py | 42 ++++++++++++++++++++++++++++++++++++++++--
 1 file changed, 40 insertions(+), 2 deletions(-)

diff --git a/pyslet/http/client.py b/pyslet/http/client.py
index a08aeb9..d708235 100644
--- a/pyslet/http/client.py
+++ b/pyslet/http/client.py
@@ -1145,6 +1145,9 @@ class Client(PEP8Compatibility, object):
         # connection id
         self.cIdleList = {}
         # A dict of idle connections keyed on connection id (for keeping count)
+        self.cWaiting = {}
+        # A dict of lists of requests waiting to be queued again, keyed on
+        # thread id
         self.closing = threading.Event()    # set if we are closing
         # maximum number of connections to manage (set only on construction)
         self.max_connections = max_connections
@@ -1321,6 +1324,36 @@ class Client(PEP8Compatibility, object):
             connection.queue_request(request)
             request.set_client(self)
 
+    def requeue_request(self, request):
+        """Queues *request* again while processing a response
+
+        Never waits for a connection because the calling thread is still
+        using at least one.  If no connection is available the request
+        waits for the next call to :py:meth:`thread_task` instead."""
+        try:
+            self.queue_request(request, 0)
+        except RequestManagerBusy:
+            with self.managerLock:
+                self.cWaiting.setdefault(
+                    threading.current_thread().ident, []).append(request)
+
+    def _queue_waiting(self, timeout):
+        # queues the requests waiting for the current thread, blocks
+        # only if the thread has no active connection
+        thread_id = threading.current_thread().ident
+        with self.managerLock:
+            waiting = self.cWaiting.pop(thread_id, [])
+        for i in range3(len(waiting)):
+            try:
+                self.queue_request(
+                    waiting[i], 0 if self.thread_active_count() else timeout)
+            except RequestManagerBusy:
+                with self.managerLock:
+                    self.cWaiting[thread_id] = waiting[i:]
+                break
+            except ConnectionClosed as err:
+                waiting[i].error = err
+
     def active_count(self):
         """Returns the total number of active connections."""
         with self.managerLock:
@@ -1439,11 +1472,13 @@ class Client(PEP8Compatibility, object):
         Returns True if at least one connection is active, otherwise
         returns False."""
         thread_id = threading.current_thread().ident
+        self._queue_waiting(timeout)
         with self.managerLock:
             connections = list(
                 dict_values(self.cActiveThreads.get(thread_id, {})))
+            waiting = thread_id in self.cWaiting
         if not connections:
-            return False
+            return waiting
         readers = []
         writers = []
         wait_time = None
@@ -1819,7 +1854,10 @@ class ClientRequest(messages.Request):
         # minute from the cookie store
         self.set_cookie(None)
         logging.info("Resending request to: %s", str(self.url))
-        self.manager.queue_request(self)
+        try:
+            self.manager.requeue_request(self)
+        except ConnectionClosed as err:
+            self.error = err
 
     def set_client(self, client):
         """Called when we are queued for processing.
-- 
2.43.0


From 90674f0a1d32d2cf6ce9d3779fc1489b035b9461 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:08:40 +0000
Subject: [PATCH 046/126] fix: the HTTP client must follow a relative redirect
 and survive a bad one

---
 pyslet/http/client.py | 25 ++++++++++++++++++-------
 1 file changed, 18 insertions(+), 7 deletions(-)

diff --git a/pyslet/http/client.py b/pyslet/http/client.py
index d708235..0ee5964 100644
--- a/pyslet/http/client.py
+++ b/pyslet/http/client.py
@@ -2025,14 +2025,25 @@ class ClientRequest(messages.Request):
             # request other than GET or HEAD, the user agent MUST NOT
             # automatically redirect the request unless it can be
             # confirmed by the user
-            location = self.response.get_location()
-            if location:
-                if not location.host:
-                    # This is an error but a common one (thanks IIS!)
-                    location = location.resolve(self.url)
-                self.resend(location)
+            try:
+                location = self.response.get_location()
+                if location:
+                    if not getattr(location, 'host', None):
+                        # This is an error but a common one (thanks IIS!)
+                        location = location.resolve(self.url)
+                    self.resend(location)
+            except (uri.URIException, messages.HTTPException,
+                    NotImplementedError, ValueError) as err:
+                # the server sent us somewhere we can't go
+                logging.error("Can't follow redirect, %s", str(err))
+                self.status = 0
+                self.error = err
         elif self.status == 401:
-            challenges = self.response.get_www_authenticate()
+            try:
+                challenges = self.response.get_www_authenticate()
+            except ValueError as err:
+                logging.warning("Ignoring challenges after %s", str(err))
+                challenges = None
             for c in challenges or ():
                 c.protectionSpace = self.url.get_canonical_root()
                 self.tried_credentials = self.manager.find_credentials(c)
-- 
2.43.0


From a3408d8b599bae905efed091faac304e251e530b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:13:55 +0000
Subject: [PATCH 047/126] fix: an unsupported URL scheme must be reported by
 ClientRequest.set_url

---
 pyslet/http/client.py | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/pyslet/http/client.py b/pyslet/http/client.py
index 0ee5964..fb5360c 100644
--- a/pyslet/http/client.py
+++ b/pyslet/http/client.py
@@ -1797,6 +1797,9 @@ class ClientRequest(messages.Request):
         with self.lock:
             if not isinstance(url, uri.URI):
                 url = uri.URI.from_octets(url)
+            if not isinstance(url, params.HTTPURL):
+                raise messages.HTTPException(
+                    "Scheme not supported: %s" % url.scheme)
             self.url = url
             if self.url.userinfo:
                 raise NotImplementedError(
@@ -1807,10 +1810,7 @@ class ClientRequest(messages.Request):
                 self.request_uri = "/"
             if self.url.query is not None:
                 self.request_uri = self.request_uri + '?' + self.url.query
-            if not isinstance(self.url, params.HTTPURL):
-                raise messages.HTTPException(
-                    "Scheme not supported: %s" % self.url.scheme)
-            elif isinstance(self.url, params.HTTPSURL):
+            if isinstance(self.url, params.HTTPSURL):
                 self.scheme = 'https'
             else:
                 self.scheme = 'http'
-- 
2.43.0


From 332a2f9fb2b91202ad2193bedf28a8c95f5b9ee2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:17:08 +0000
Subject: [PATCH 048/126] fix: an authentication challenge other than Basic
 must keep its scheme

---
 pyslet/http/auth.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pyslet/http/auth.py b/pyslet/http/auth.py
index 3941177..9ddd3c6 100755
--- a/pyslet/http/auth.py
+++ b/pyslet/http/auth.py
@@ -349,4 +349,4 @@ class AuthorizationParser(ParameterParser):
         if auth_scheme.lower() == "basic":
             return BasicChallenge(*params)
         else:
-            return Challenge(*params)
+            return Challenge(auth_scheme, *params)
-- 
2.43.0


From b57584406a4749105f8faa78a0bc7c840cf8d252 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:17:08 +0000
Subject: [PATCH 049/126] fix: credentials limited to a realm must match a
 challenge with that realm

---
 pyslet/http/auth.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/pyslet/http/auth.py b/pyslet/http/auth.py
index 9ddd3c6..cbcb11b 100755
--- a/pyslet/http/auth.py
+++ b/pyslet/http/auth.py
@@ -170,7 +170,7 @@ class Credentials(Parameter):
         if self.protectionSpace != challenge.protectionSpace:
             return False
         if self.realm:
-            if self.realm != challenge.realm:
+            if self.bstr(self.realm) != challenge["realm"]:
                 return False
         return True
 
@@ -228,7 +228,7 @@ class BasicCredentials(Credentials):
     def match(self, challenge=None, url=None):
         if challenge is not None:
             # must match the challenge
-            if not super(BasicCredentials, self).match(challenge):
+            if not self.match_challenge(challenge):
                 return False
         if url is not None:
             # must match the url
-- 
2.43.0


From 40f50d379b676eb9351f5e3be69c43cb11c81bfc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:17:08 +0000
Subject: [PATCH 050/126] fix: a password in basic credentials may contain a
 colon

---
 pyslet/http/auth.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pyslet/http/auth.py b/pyslet/http/auth.py
index cbcb11b..7ced04e 100755
--- a/pyslet/http/auth.py
+++ b/pyslet/http/auth.py
@@ -218,7 +218,7 @@ class BasicCredentials(Credentials):
         self.path_prefixes = []
 
     def set_basic_credentials(self, basic_credentials):
-        credentials = base64.b64decode(basic_credentials).split(b':')
+        credentials = base64.b64decode(basic_credentials).split(b':', 1)
         if len(credentials) == 2:
             self.userid = credentials[0].decode('iso-8859-1')
             self.password = credentials[1].decode('iso-8859-1')
-- 
2.43.0


From 2b791dfb7278ed36e3c379a88cb72a0a9b864c9a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:22:22 +0000
Subject: [PATCH 051/126] fix: a connection killed while it is connecting must
 stay dead

kill only marked the connection when it had a socket already, so one
killed while connecting lived on outside the pool's limit.
---
 pyslet/http/client.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pyslet/http/client.py b/pyslet/http/client.py
index fb5360c..5c58bc2 100644
--- a/pyslet/http/client.py
+++ b/pyslet/http/client.py
@@ -701,7 +701,7 @@ class Connection(SortableMixin):
                     # ignore errors, most likely the server has stopped
                     # listening
                     pass
-                self.closed = True
+            self.closed = True
 
     def _start_request(self, request):
         # Starts processing the request.  Returns True if the request
-- 
2.43.0


From 238f81d058ba80d227bc383ecae4053090f5500c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:22:22 +0000
Subject: [PATCH 052/126] fix: a killed connection must not take the place of
 its successor in the pool

_deactivate_connection looked for any active connection of the same
thread and target, not for the connection itself.
---
 pyslet/http/client.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/pyslet/http/client.py b/pyslet/http/client.py
index 5c58bc2..6c3986d 100644
--- a/pyslet/http/client.py
+++ b/pyslet/http/client.py
@@ -1391,7 +1391,7 @@ class Client(PEP8Compatibility, object):
         target = connection.target_key()
         thread_target = connection.thread_target_key()
         with self.managerLock:
-            if thread_target in self.cActiveThreadTargets:
+            if self.cActiveThreadTargets.get(thread_target) is connection:
                 del self.cActiveThreadTargets[thread_target]
                 self.cIdleList[connection.id] = connection
                 if target in self.cIdleTargets:
@@ -1416,7 +1416,7 @@ class Client(PEP8Compatibility, object):
         # implementation is similar to deactivation.
         thread_target = connection.thread_target_key()
         with self.managerLock:
-            if thread_target in self.cActiveThreadTargets:
+            if self.cActiveThreadTargets.get(thread_target) is connection:
                 del self.cActiveThreadTargets[thread_target]
                 # tell any threads waiting for a connection
                 self.managerLock.notify()
-- 
2.43.0


From 996fd9210809678dde341ad9e1ec33c38f801ab1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:22:22 +0000
Subject: [PATCH 053/126] fix: active_cleanup must not kill a connection that
 has only just become active

A new connection had last_active 0 and one taken from the idle list the
time of its previous request.
---
 pyslet/http/client.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/pyslet/http/client.py b/pyslet/http/client.py
index 6c3986d..0d7629f 100644
--- a/pyslet/http/client.py
+++ b/pyslet/http/client.py
@@ -1369,6 +1369,7 @@ class Client(PEP8Compatibility, object):
     def _activate_connection(self, connection, thread_id):
         # safe if connection is new and not in the idle list
         connection.thread_id = thread_id
+        connection.last_active = time.time()
         target = connection.target_key()
         thread_target = connection.thread_target_key()
         with self.managerLock:
-- 
2.43.0


From 32ad30027efd40fcff252d0119f4f5443f049c0a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:22:22 +0000
Subject: [PATCH 054/126] fix: the clean-up of connections must not let the
 pool exceed its maximum

Connections were taken off the lists, so that others could be opened in
their place, before they were closed.
---
 pyslet/http/client.py | 22 +++++++++++++---------
 1 file changed, 13 insertions(+), 9 deletions(-)

diff --git a/pyslet/http/client.py b/pyslet/http/client.py
index 0d7629f..2e0a073 100644
--- a/pyslet/http/client.py
+++ b/pyslet/http/client.py
@@ -1552,11 +1552,14 @@ class Client(PEP8Compatibility, object):
                         del self.cIdleTargets[target][connection.id]
                         if not self.cIdleTargets[target]:
                             del self.cIdleTargets[target]
-        # now we can clean up these connections in a more leisurely fashion
-        if clist:
-            logging.debug("idle_cleanup closing connections...")
-            for connection in clist:
-                connection.close()
+            # close them before the lock is released, they count towards
+            # the maximum until they are closed
+            if clist:
+                logging.debug("idle_cleanup closing connections...")
+                for connection in clist:
+                    connection.close()
+                # tell any threads waiting for a connection
+                self.managerLock.notify(len(clist))
 
     def active_cleanup(self, max_inactive=90):
         """Clean up active connections that have been inactive for
@@ -1584,14 +1587,15 @@ class Client(PEP8Compatibility, object):
                             connection.thread_target_key()]
                         clist.append(connection)
             if clist:
+                # kill them before the lock is released, they count
+                # towards the maximum until they are dead
+                logging.debug("active_cleanup killing connections...")
+                for connection in clist:
+                    connection.kill()
                 # if stuck threads were blocked waiting for a connection
                 # then we can wake them up, one for each connection
                 # killed
                 self.managerLock.notify(len(clist))
-        if clist:
-            logging.debug("active_cleanup killing connections...")
-            for connection in clist:
-                connection.kill()
 
     def close(self):
         """Closes all connections and sets the manager to a state where
-- 
2.43.0


From 3903edf0aaa3d576050b22825e26a2cd8dbe6278 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:22:30 +0000
Subject: [PATCH 055/126] fix: a connection that cannot send any more must not
 take further requests

The assignment to request_mode was a comparison, and an SSL error while
sending left the number of bytes sent undefined.
---
 pyslet/http/client.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/pyslet/http/client.py b/pyslet/http/client.py
index 2e0a073..a44e6e7 100644
--- a/pyslet/http/client.py
+++ b/pyslet/http/client.py
@@ -790,8 +790,8 @@ class Connection(SortableMixin):
                     return (False, True)
                 else:
                     # we're going to swallow this error, log it
-                    logging.error("socket.recv raised %s", str(err))
-                    data = None
+                    logging.error("socket.send raised %s", str(err))
+                    nbytes = 0
             except IOError as err:
                 if io_blocked(err):
                     # we're blocked on send
@@ -809,7 +809,7 @@ class Connection(SortableMixin):
                 # requests!
                 self.request.disconnect(self.sent_bytes)
                 self.request = None
-                self.request_mode == self.CLOSE_WAIT
+                self.request_mode = self.CLOSE_WAIT
                 self.send_buffer = []
             elif nbytes < len(data):
                 # Some of the data went:
-- 
2.43.0


From 8789064a4ba453c1b631fb3b58b340c23f45a44f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:26:31 +0000
Subject: [PATCH 056/126] fix: a response must be read to the end even while
 the request blocks

When sending was blocked a single read was made from the connection,
after that the thread waited only for the request to make progress.
---
 pyslet/http/client.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pyslet/http/client.py b/pyslet/http/client.py
index a44e6e7..8b142d4 100644
--- a/pyslet/http/client.py
+++ b/pyslet/http/client.py
@@ -342,7 +342,7 @@ class Connection(SortableMixin):
                     recv_done, recv_rbusy, recv_wbusy = self._recv_task()
                     rbusy = rbusy or recv_rbusy
                     wbusy = wbusy or recv_wbusy
-                    if rbusy or wbusy:
+                    if recv_rbusy or recv_wbusy:
                         if (self.last_rw is not None and
                                 self.timeout is not None and
                                 self.last_rw + self.timeout < time.time()):
-- 
2.43.0


From 827eb06cdc923262fa1df259739431ac89ede1cd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:40:21 +0000
Subject: [PATCH 057/126] fix: CONTENT_TYPE and CONTENT_LENGTH in the WSGI
 environ must be native strings

---
 pyslet/http/server.py | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/pyslet/http/server.py b/pyslet/http/server.py
index 2ff0a7d..929746d 100755
--- a/pyslet/http/server.py
+++ b/pyslet/http/server.py
@@ -824,10 +824,12 @@ class ServerRequest(messages.Request):
                 environ['QUERY_STRING'] = url.query
             content_type = self.get_header('Content-Type')
             if content_type is not None:
-                environ['CONTENT_TYPE'] = content_type
+                environ['CONTENT_TYPE'] = content_type.decode(
+                    'iso-8859-1')
             content_length = self.get_header('Content-Length')
             if content_length is not None:
-                environ['CONTENT_LENGTH'] = content_length
+                environ['CONTENT_LENGTH'] = content_length.decode(
+                    'iso-8859-1')
             for hname, hvalue in dict_items(self.headers):
                 hname = hname.replace(b"-", b"_").decode('iso-8859-1')
                 environ['HTTP_' + hname.upper()] = b", ".join(
-- 
2.43.0


From 3b5b69096e765114cb5c8ad589f91a25200bf4ba Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:42:13 +0000
Subject: [PATCH 058/126] fix: a request with a transfer coding other than
 chunked must be refused

---
 pyslet/http/messages.py | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/pyslet/http/messages.py b/pyslet/http/messages.py
index 8202670..ea94b1f 100755
--- a/pyslet/http/messages.py
+++ b/pyslet/http/messages.py
@@ -1639,6 +1639,13 @@ class Request(Message):
     def recv_transferlength(self):
         super(Request, self).recv_transferlength()
         if self.transferlength is None and not self.transferchunked:
+            encoding = self.get_transfer_encoding()
+            if encoding and not (
+                    len(encoding) == 1 and encoding[0].token == "identity"):
+                # there is a body but we can't tell where it ends, what
+                # follows must not be mistaken for the next request
+                raise ProtocolError(
+                    "Transfer-Encoding without chunked in request")
             # if we are left with transferlength == None and no chunked
             # encoding it means there is no message body as requests
             # cannot hang up to indicate the end of the message
-- 
2.43.0


From fb310e4fde3119da9c568b76f68e170aa2739639 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:46:46 +0000
Subject: [PATCH 059/126] fix: the HTTP server must not start another request
 when the application has timed out

---
 pyslet/http/server.py | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/pyslet/http/server.py b/pyslet/http/server.py
index 929746d..0dd40f3 100755
--- a/pyslet/http/server.py
+++ b/pyslet/http/server.py
@@ -475,8 +475,10 @@ class Connection(socketserver.BaseRequestHandler):
                 # hang up the connection.
                 logging.debug("handle_request: waiting for response...")
                 request.response.ready_to_send.wait(self.server.app_timeout)
-                if not request.response.keep_alive:
-                    # the response is terminating the connection
+                if (not request.response.ready_to_send.is_set() or
+                        not request.response.keep_alive):
+                    # the response is terminating the connection, or
+                    # will be because the application timed out
                     break
                 # request and response happy to keep the connection open
                 continue
-- 
2.43.0


From ad24be5d6e18c34c7a459771837d7c6c1349c6ca Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:51:11 +0000
Subject: [PATCH 060/126] fix: the HTTP server must decide about 100-Continue
 before it reads another request

---
 pyslet/http/server.py | 11 +++++++++++
 1 file changed, 11 insertions(+)

diff --git a/pyslet/http/server.py b/pyslet/http/server.py
index 0dd40f3..3a7e027 100755
--- a/pyslet/http/server.py
+++ b/pyslet/http/server.py
@@ -480,6 +480,14 @@ class Connection(socketserver.BaseRequestHandler):
                     # the response is terminating the connection, or
                     # will be because the application timed out
                     break
+                if request.get_expect_continue():
+                    # the response thread may still decide to terminate
+                    # the connection instead of sending 100-Continue
+                    request.response.continue_done.wait(
+                        self.server.app_timeout)
+                    if (not request.response.continue_done.is_set() or
+                            not request.response.keep_alive):
+                        break
                 # request and response happy to keep the connection open
                 continue
         except IOError:
@@ -554,6 +562,7 @@ class Connection(socketserver.BaseRequestHandler):
                             response.clear_keep_alive()
                             response.set_connection(["close"])
                         response.request.aborted.set()
+                    response.continue_done.set()
                 if not response.ready_to_send.is_set():
                     # script timeout: generate a 500 error then kill
                     # this connection
@@ -864,6 +873,8 @@ class ServerResponse(messages.Response):
         #: a CascadingEvent set when the response headers are sent
         self.ready_to_send = CascadingEvent()
         self.send_continue = CascadingEvent()
+        #: set when there is no 100-Continue left to send
+        self.continue_done = threading.Event()
         super(ServerResponse, self).__init__(
             request=request, entity_body=self.send_pipe, **kwargs)
 
-- 
2.43.0


From 1d5618a4d2106a5b30347666cb992b63d67ddead Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:53:20 +0000
Subject: [PATCH 061/126] fix: the HTTP server must close the connection when
 the request asks it to

---
 pyslet/http/server.py | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/pyslet/http/server.py b/pyslet/http/server.py
index 3a7e027..acdb6ae 100755
--- a/pyslet/http/server.py
+++ b/pyslet/http/server.py
@@ -803,6 +803,7 @@ class ServerRequest(messages.Request):
 
     def handle_headers(self):
         """Create a wsgi environment and start a processing thread"""
+        super(ServerRequest, self).handle_headers()
         # normalise the request URI to remove scheme and authority
         # ensures Host: is set correctly
         self.extract_authority()
@@ -879,6 +880,11 @@ class ServerResponse(messages.Response):
             request=request, entity_body=self.send_pipe, **kwargs)
 
     def start_sending(self):
+        if (not self.request.keep_alive and
+                self.request.protocol is not None and
+                self.request.protocol > params.HTTP_1p0):
+            # tell the client that we're going to hang up
+            self.clear_keep_alive()
         super(ServerResponse, self).start_sending()
         self.ready_to_send.set()
 
-- 
2.43.0


From 943bc96f9f34fcd85d624fa007a743520a0b3f47 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:21:50 +0000
Subject: [PATCH 062/126] fix: concurrent deletes of an in-memory entity must
 not overtake each other

A thread that found the entity being deleted by another thread returned
before the entity was gone.
---
 pyslet/odata2/memds.py | 9 ++++++++-
 1 file changed, 8 insertions(+), 1 deletion(-)

diff --git a/pyslet/odata2/memds.py b/pyslet/odata2/memds.py
index 6711cad..5a67f70 100644
--- a/pyslet/odata2/memds.py
+++ b/pyslet/odata2/memds.py
@@ -483,7 +483,14 @@ class EntityCollection(odata.EntityCollection):
     def __delitem__(self, key):
         """We do a cascade delete of everything that *must* be linked to
         us. We don't need to bother about deleting links because the
-        delete hooks on entity_store do this automatically."""
+        delete hooks on entity_store do this automatically.
+
+        The container is locked throughout so the only deletions that
+        can be found to be in progress are our own."""
+        with self.entity_store.container.lock:
+            self._cascade_delete(key)
+
+    def _cascade_delete(self, key):
         if not self.entity_store.start_deleting_entity(key):
             # we're already being deleted so do nothing
             return
-- 
2.43.0


From d708a3ecb10b882e7d94f286a211d1670e88a2ac Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:21:51 +0000
Subject: [PATCH 063/126] fix: a stored block must reach the disk before it
 gets its name

A block file renamed before its data was synced may be empty or cut
short after a power loss.
---
 pyslet/blockstore.py | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/pyslet/blockstore.py b/pyslet/blockstore.py
index 32f5e9e..434bf27 100755
--- a/pyslet/blockstore.py
+++ b/pyslet/blockstore.py
@@ -159,6 +159,14 @@ class FileBlockStore(BlockStore):
                     0:32]))
             with tmp_path.open(mode="wb") as f:
                 f.write(data)
+                # the data must be on the disk before the block gets its
+                # name, otherwise it may be incomplete after a crash
+                f.flush()
+                try:
+                    os.fsync(f.fileno())
+                except (AttributeError, io.UnsupportedOperation):
+                    # a virtual file
+                    pass
             if not parent.exists():
                 try:
                     parent.makedirs()
-- 
2.43.0


From 2e348971a1f6e6d0d2ec71bfc3e670855466968a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:21:51 +0000
Subject: [PATCH 064/126] fix: retrieving a block while it is deleted must
 raise BlockMissing

The file may go between the test for it and opening it.
---
 pyslet/blockstore.py | 11 +++++++++--
 1 file changed, 9 insertions(+), 2 deletions(-)

diff --git a/pyslet/blockstore.py b/pyslet/blockstore.py
index 434bf27..439da7b 100755
--- a/pyslet/blockstore.py
+++ b/pyslet/blockstore.py
@@ -1,6 +1,7 @@
 #! /usr/bin/env python
 
 import binascii
+import errno
 import hashlib
 import io
 import logging
@@ -179,8 +180,14 @@ class FileBlockStore(BlockStore):
     def retrieve(self, key):
         path = self.dpath.join(key[0:2], key[2:4], key[4:])
         if path.exists():
-            with path.open('rb') as f:
-                data = f.read()
+            try:
+                with path.open('rb') as f:
+                    data = f.read()
+            except (IOError, OSError) as e:
+                if e.errno == errno.ENOENT:
+                    # race condition, the block has been deleted
+                    raise BlockMissing
+                raise
             return data
         else:
             raise BlockMissing
-- 
2.43.0


From e8d0e38faa846ef7bbd043ce269e23644009798a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:03:57 +0000
Subject: [PATCH 065/126] fix: waiting for a lock must not spin, exceed its
 time-out or need an integer

---
 pyslet/blockstore.py | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/pyslet/blockstore.py b/pyslet/blockstore.py
index 439da7b..56ee4ef 100755
--- a/pyslet/blockstore.py
+++ b/pyslet/blockstore.py
@@ -320,7 +320,9 @@ class LockStore(object):
             tstop = tnow + timeout
             twait = 0
             while tnow < tstop:
-                time.sleep(twait)
+                if twait:
+                    time.sleep(twait)
+                    tnow = time.time()
                 lock = locks.new_entity()
                 lock['hash'].set_from_value(hash_key)
                 lock['owner'].set_from_value(owner)
@@ -353,8 +355,9 @@ class LockStore(object):
                         continue
                     except edm.ConstraintError:
                         pass
-                twait = random.randint(0, timeout // 5)
                 tnow = time.time()
+                twait = max(0, min(random.uniform(0, timeout / 5.0),
+                                   tstop - tnow))
         logging.warning("LockingBlockStore: timeout locking %s", hash_key)
         raise LockError
 
-- 
2.43.0


From ec6f9f010ba951a2ed4c50f3f3edbe7206fd9605 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:03:57 +0000
Subject: [PATCH 066/126] fix: the in-memory store must honour and renew
 concurrency tokens on update

---
 pyslet/odata2/memds.py | 38 ++++++++++++++++++++++++++++++++++++--
 1 file changed, 36 insertions(+), 2 deletions(-)

diff --git a/pyslet/odata2/memds.py b/pyslet/odata2/memds.py
index 5a67f70..47da178 100644
--- a/pyslet/odata2/memds.py
+++ b/pyslet/odata2/memds.py
@@ -162,11 +162,13 @@ class InMemoryEntityStore(object):
             else:
                 return '', odata.StreamInfo(size=0)
 
-    def update_entity(self, e, merge=True):
+    def update_entity(self, e, merge=True, check_tokens=True):
         # e is an EntityTypeInstance, we need to convert it to a tuple
         key = e.key()
         with self.container.lock:
             value = list(self.data[key])
+            if check_tokens:
+                self.check_concurrency_tokens(e, value)
             i = 0
             for pname in e.data_keys():
                 if pname in e.entity_set.keys:
@@ -190,6 +192,34 @@ class InMemoryEntityStore(object):
                 i = i + 1
             self.data[key] = tuple(value)
 
+    def check_concurrency_tokens(self, e, value):
+        """Raises ConcurrencyError if e's tokens are not the stored ones
+
+        value
+            The stored value of the entity.
+
+        If the tokens match then e is given new ones.
+
+        Not thread-safe, must only be called if you have acquired the
+        container lock."""
+        tokens = []
+        for pname, pvalue in zip(e.data_keys(), value):
+            p = e[pname]
+            if not isinstance(p, edm.SimpleValue) or \
+                    p.p_def.concurrencyMode != edm.ConcurrencyMode.Fixed or \
+                    not e.is_selected(pname):
+                continue
+            tokens.append(p)
+            if p.value != pvalue:
+                raise edm.ConcurrencyError(
+                    "%s has been changed" % str(e.get_location()))
+        if len(tokens) == 1 and isinstance(tokens[0], edm.BinaryValue) and \
+                e.type_def.has_stream():
+            # this token is the hash of the entity's stream
+            return
+        if tokens:
+            e.set_concurrency_tokens()
+
     def update_entity_stream(self, key, stream, sinfo):
         with self.container.lock:
             self.streams[key] = (stream, sinfo)
@@ -628,7 +658,11 @@ class EntityCollection(odata.EntityCollection):
         # together
         with self.entity_store.container.lock:
             if update:
-                self.update_entity(e)
+                # the new token is the hash of the stream
+                new_value = etag.value
+                e = self[key]
+                e.etag_values()[0].set_from_value(new_value)
+                self.entity_store.update_entity(e, check_tokens=False)
             self.entity_store.update_entity_stream(key, data, sinfo)
 
     def read_stream(self, key, out=None):
-- 
2.43.0


From a2186b4009300316931a632149fe8fdf3be803ca Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:06:15 +0000
Subject: [PATCH 067/126] fix: closing or cleaning the SQL connection pool must
 work and release waiting threads

---
 pyslet/odata2/sqlds.py | 25 ++++++++++++++++++-------
 1 file changed, 18 insertions(+), 7 deletions(-)

diff --git a/pyslet/odata2/sqlds.py b/pyslet/odata2/sqlds.py
index b96ba75..3ae8b8b 100755
--- a/pyslet/odata2/sqlds.py
+++ b/pyslet/odata2/sqlds.py
@@ -4631,6 +4631,8 @@ class SQLEntityContainer(object):
                 return None
             while not self.module_lock.acquire(False):
                 self.cpool_lock.wait(timeout)
+                if self.closing.is_set():
+                    return None
                 now = time.time()
                 if timeout is not None and now > start + timeout:
                     logging.warning(
@@ -4674,6 +4676,9 @@ class SQLEntityContainer(object):
                         # thread?  Yes: we require it!
                         close_flag = True
                 else:
+                    if self.closing.is_set():
+                        # nothing will be released to us now
+                        break
                     now = time.time()
                     if timeout is not None and now > start + timeout:
                         logging.warning(
@@ -4759,6 +4764,9 @@ class SQLEntityContainer(object):
                     "Thread[%i] released a database connection from the "
                     "idle pool: closing for safety", thread_id)
                 close_flag = True
+            elif self.closing.is_set():
+                # we gave up waiting for this connection
+                close_flag = release_item.dbc is not None
             # ok, this really is an error!
             logging.error(
                 "Thread[%i] attempted to unlock un unknown database "
@@ -4809,15 +4817,16 @@ class SQLEntityContainer(object):
         with self.cpool_lock:
             locked_list = list(dict_values(self.cpool_locked))
             for cpool_item in locked_list:
-                if not cpool_item.thread.isAlive():
+                if not cpool_item.thread.is_alive():
                     logging.error(
                         "Thread[%i] failed to release database connection "
                         "before terminating", cpool_item.thread_id)
                     del self.cpool_locked[cpool_item.thread_id]
+                    self.cpool_size -= 1
                     to_close.append(cpool_item.dbc)
             unlocked_list = list(dict_values(self.cpool_unlocked))
             for cpool_item in unlocked_list:
-                if not cpool_item.thread.isAlive():
+                if not cpool_item.thread.is_alive():
                     logging.debug(
                         "pool_cleaner moving database connection to idle "
                         "after Thread[%i] terminated",
@@ -4844,6 +4853,8 @@ class SQLEntityContainer(object):
                     to_close.append(cpool_item.dbc)
                     del self.cpool_idle[i]
                     self.cpool_size -= 1
+            # there may be room for new connections
+            self.cpool_lock.notify_all()
         for dbc in to_close:
             if dbc is not None:
                 self.close_connection(dbc)
@@ -4908,9 +4919,6 @@ class SQLEntityContainer(object):
             while True:
                 while self.cpool_idle:
                     cpool_item = self.cpool_idle.pop()
-                    logging.error(
-                        "Thread[%i] failed to release database connection "
-                        "before terminating", cpool_item.thread_id)
                     to_close.append(cpool_item.dbc)
                 while self.cpool_unlocked:
                     unlocked_id, cpool_item = self.cpool_unlocked.popitem()
@@ -4923,7 +4931,7 @@ class SQLEntityContainer(object):
                             "before closing container", cpool_item.thread_id)
                         del self.cpool_locked[cpool_item.thread_id]
                         to_close.append(cpool_item.dbc)
-                    elif not cpool_item.thread.isAlive():
+                    elif not cpool_item.thread.is_alive():
                         logging.error(
                             "Thread[%i] failed to release database connection "
                             "before terminating", cpool_item.thread_id)
@@ -4932,7 +4940,8 @@ class SQLEntityContainer(object):
                     else:
                         # thread is alive, try and interrupt it if it is
                         # stuck in a slow query
-                        self.break_connection(cpool_item.dbc)
+                        if cpool_item.dbc is not None:
+                            self.break_connection(cpool_item.dbc)
                 if self.cpool_locked and (nlocked is None or
                                           nlocked > len(self.cpool_locked)):
                     # if this is the first time around the loop, or...
@@ -4953,6 +4962,8 @@ class SQLEntityContainer(object):
                         "forcing it to close", cpool_item.thread_id)
                     del self.cpool_locked[cpool_item.thread_id]
                     to_close.append(cpool_item.dbc)
+                # don't keep anyone waiting
+                self.cpool_lock.notify_all()
                 break
         for dbc in to_close:
             if dbc is not None:
-- 
2.43.0


From 09bb5195cb62439b1ac2b746e0a3e209d91e70bd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:06:15 +0000
Subject: [PATCH 068/126] fix: failing to open an SQL connection must not use
 up the connection pool

---
 pyslet/odata2/sqlds.py | 22 ++++++++++++++++------
 1 file changed, 16 insertions(+), 6 deletions(-)

diff --git a/pyslet/odata2/sqlds.py b/pyslet/odata2/sqlds.py
index 3ae8b8b..d8c98f6 100755
--- a/pyslet/odata2/sqlds.py
+++ b/pyslet/odata2/sqlds.py
@@ -3196,6 +3196,7 @@ class SQLForeignKeyCollection(SQLNavigationCollection):
     :py:meth:`SQLEntityContainer.mangle_name` method in the container."""
 
     def __init__(self, **kwargs):
+        self.keyCollection = None
         super(SQLForeignKeyCollection, self).__init__(**kwargs)
         self.keyCollection = self.from_entity.entity_set.open()
 
@@ -3367,6 +3368,7 @@ class SQLReverseKeyCollection(SQLNavigationCollection):
     clause is required."""
 
     def __init__(self, **kwargs):
+        self.keyCollection = None
         super(SQLReverseKeyCollection, self).__init__(**kwargs)
         self.keyCollection = self.entity_set.open()
 
@@ -3481,7 +3483,8 @@ class SQLReverseKeyCollection(SQLNavigationCollection):
             self.from_end.otherEnd, self.from_entity, transaction)
 
     def close(self):
-        self.keyCollection.close()
+        if self.keyCollection is not None:
+            self.keyCollection.close()
         super(SQLReverseKeyCollection, self).close()
 
 
@@ -4699,11 +4702,18 @@ class SQLEntityContainer(object):
                 cpool_item.last_seen = time.time()
                 self.cpool_locked[thread_id] = cpool_item
         if cpool_item:
-            if close_flag:
-                self.close_connection(cpool_item.dbc)
-                cpool_item.dbc = None
-            if cpool_item.dbc is None:
-                cpool_item.dbc = self.open()
+            try:
+                if close_flag and cpool_item.dbc is not None:
+                    dbc = cpool_item.dbc
+                    cpool_item.dbc = None
+                    self.close_connection(dbc)
+                if cpool_item.dbc is None:
+                    cpool_item.dbc = self.open()
+            except Exception:
+                # the connection can't be used but someone else may have
+                # more luck
+                self.release_connection(cpool_item)
+                raise
             return cpool_item
         # we are defeated, no database connection for the caller
         # release lock on the module as there is no connection to release
-- 
2.43.0


From 1af98a6a63e79f2bf68b388adf95029034747284 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:06:15 +0000
Subject: [PATCH 069/126] fix: an entity whose SQL insert failed must not claim
 to exist

---
 pyslet/odata2/sqlds.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/pyslet/odata2/sqlds.py b/pyslet/odata2/sqlds.py
index d8c98f6..980aae6 100755
--- a/pyslet/odata2/sqlds.py
+++ b/pyslet/odata2/sqlds.py
@@ -2335,6 +2335,7 @@ class SQLEntityCollection(SQLCollectionBase):
             # we might need to distinguish between a failure due to
             # fk_values or a missing key
             transaction.rollback(e, swallow=True)
+            entity.exists = False
             # swallow the error as this should indicate a failure at the
             # point of INSERT, fk_values may have violated a unique
             # constraint but we can't make that distinction at the
@@ -2343,6 +2344,7 @@ class SQLEntityCollection(SQLCollectionBase):
                 "insert_entity failed for %s : %s" %
                 (str(entity.get_location()), str(e)))
         except Exception as e:
+            entity.exists = False
             transaction.rollback(e)
         finally:
             transaction.close()
-- 
2.43.0


From ecb85eef6188e5f00b757a03e0cc54e007c7933c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:06:15 +0000
Subject: [PATCH 070/126] fix: storing a media stream in an SQL container must
 commit

---
 pyslet/odata2/sqlds.py | 12 +++++++-----
 1 file changed, 7 insertions(+), 5 deletions(-)

diff --git a/pyslet/odata2/sqlds.py b/pyslet/odata2/sqlds.py
index 980aae6..cbd7e2c 100755
--- a/pyslet/odata2/sqlds.py
+++ b/pyslet/odata2/sqlds.py
@@ -784,7 +784,7 @@ class SQLCollectionBase(core.EntityCollection):
         else:
             estream = None
             sinfo.size = 0
-            sinfo.md5 = hashlib.md5('').digest()
+            sinfo.md5 = hashlib.md5(b'').digest()
             self.close()
             return sinfo, []
 
@@ -861,6 +861,7 @@ class SQLCollectionBase(core.EntityCollection):
             query = ''.join(query)
             logging.info("%s; %s", query, to_text(params.params))
             transaction.execute(query, params)
+            transaction.commit()
         except Exception as e:
             # we allow the stream store to re-use the same database but
             # this means we can't transact on both at once (from the
@@ -2060,7 +2061,7 @@ class SQLEntityCollection(SQLCollectionBase):
                 # give up - we can't insert anything
                 logging.error("Failed to find an unused key in %s "
                               "after 100 attempts", e.entity_set.name)
-                raise edm.SQLError("Auto-key failure")
+                raise SQLError("Auto-key failure")
             # finally, store the stream value for the entity
             query = ['UPDATE ', self.table_name, ' SET ']
             params = self.container.ParamsClass()
@@ -2078,6 +2079,7 @@ class SQLEntityCollection(SQLCollectionBase):
             query = ''.join(query)
             logging.info("%s; %s", query, to_text(params.params))
             transaction.execute(query, params)
+            transaction.commit()
         except Exception as e:
             # we allow the stream store to re-use the same database but
             # this means we can't transact on both at once (from the
@@ -2922,9 +2924,9 @@ class SQLEntityCollection(SQLCollectionBase):
                 # no rows matched this constraint, entity either doesn't exist
                 # or wasn't linked to the target
                 raise KeyError(
-                    "Entity %s does not exist or is not linked to %s" % str(
-                        entity.get_location(),
-                        target_entity.get_location))
+                    "Entity %s does not exist or is not linked to %s" %
+                    (str(entity.get_location()),
+                     str(target_entity.get_location())))
             transaction.commit()
         except Exception as e:
             transaction.rollback(e)
-- 
2.43.0


From f870ebc6cfaa59fad90b2fa20bcbc85f8adf27aa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:06:23 +0000
Subject: [PATCH 071/126] fix: links and entities bound in an SQL update must
 be part of its transaction

---
 pyslet/odata2/sqlds.py | 8 +++++---
 1 file changed, 5 insertions(+), 3 deletions(-)

diff --git a/pyslet/odata2/sqlds.py b/pyslet/odata2/sqlds.py
index cbd7e2c..a4998e1 100755
--- a/pyslet/odata2/sqlds.py
+++ b/pyslet/odata2/sqlds.py
@@ -2490,7 +2490,8 @@ class SQLEntityCollection(SQLCollectionBase):
                         # add this entity to it's base collection
                         with target_set.open() as targetCollection:
                             targetCollection.insert_entity_sql(
-                                target_entity, link_end.otherEnd, transaction)
+                                target_entity, link_end.otherEnd,
+                                transaction=transaction)
                 # Finally, we have a target entity, add the foreign key to
                 # fk_values
                 for key_name in target_set.keys:
@@ -2622,11 +2623,12 @@ class SQLEntityCollection(SQLCollectionBase):
                                         binding,
                                         link_end.otherEnd,
                                         target_fk_values,
-                                        transaction)
+                                        transaction=transaction)
                                 else:
                                     # foreign keys are in an auxiliary table
                                     targetCollection.insert_entity_sql(
-                                        binding, link_end.otherEnd)
+                                        binding, link_end.otherEnd,
+                                        transaction=transaction)
                                     if dv.isCollection:
                                         navCollection.insert_link(
                                             binding, transaction)
-- 
2.43.0


From 51e5fa63bfbd4ce697234f34c1e67f96d80dc43c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:06:23 +0000
Subject: [PATCH 072/126] fix: reading must neither commit, roll back nor lose
 the changes of an SQL transaction in progress

---
 pyslet/odata2/sqlds.py | 51 ++++++++++++++++++++++++++++++++----------
 1 file changed, 39 insertions(+), 12 deletions(-)

diff --git a/pyslet/odata2/sqlds.py b/pyslet/odata2/sqlds.py
index a4998e1..6fdcc2d 100755
--- a/pyslet/odata2/sqlds.py
+++ b/pyslet/odata2/sqlds.py
@@ -226,21 +226,28 @@ def retry_decorator(tmethod):
             strike = 0
             while True:
                 try:
+                    if self.connection.dbc is None:
+                        self.connection.dbc = self.container.open()
+                        if self.cursor is not None:
+                            # create a new cursor
+                            self.cursor = self.connection.dbc.cursor()
                     result = tmethod(self, *args, **kwargs)
                     break
                 except self.api.OperationalError as err:
                     strike += 1
-                    if strike < 3:
+                    if strike < 3 and self.connection.writer in (None, self):
                         logging.error(
                             "Thread[%i] retrying database connection "
                             "after error: %s", self.connection.thread_id,
                             str(err))
-                        self.container.close_connection(self.connection.dbc)
-                        self.connection.dbc = self.container.open()
-                        if self.cursor is not None:
-                            # create a new cursor
-                            self.cursor = self.connection.dbc.cursor()
+                        dbc = self.connection.dbc
+                        self.connection.dbc = None
+                        self.connection.writer = None
+                        if dbc is not None:
+                            self.container.close_connection(dbc)
                     else:
+                        # don't close the connection if that would throw
+                        # away the changes of another transaction
                         raise
         return result
 
@@ -278,7 +285,13 @@ class SQLTransaction(object):
     begin and commit calls provided that method follows the same pattern
     as the above for the try, except and finally blocks.  The object
     keeps track of these 'nested' transactions and delays the commit or
-    rollback until the outermost method invokes them."""
+    rollback until the outermost method invokes them.
+
+    A thread uses the same connection for all its collections so other
+    transaction objects may be used, e.g., to query the database, while a
+    transaction has changes that it has not yet committed.  They see these
+    changes and must neither commit them nor roll them back, that remains
+    the job of the transaction that made them: the connection's *writer*."""
 
     def __init__(self, container, connection):
         self.container = container
@@ -310,17 +323,25 @@ class SQLTransaction(object):
         params
                 A :py:class:`SQLParams` object containing any
                 parameterized values."""
+        if self.connection.writer is None and not self.is_query(sqlcmd):
+            self.connection.writer = self
         self.cursor.execute(sqlcmd,
                             params.params if params is not None else None)
         self.query_count += 1
 
+    @staticmethod
+    def is_query(sqlcmd):
+        """Returns True if sqlcmd can't change the database"""
+        return sqlcmd.lstrip()[:6].upper() == "SELECT"
+
     def commit(self):
         """Ends this transaction with a commit
 
         Nested transactions do nothing."""
-        if self.no_commit:
+        if self.no_commit or self.connection.writer not in (None, self):
             return
         self.connection.dbc.commit()
+        self.connection.writer = None
 
     def rollback(self, err=None, swallow=False):
         """Calls the underlying database connection rollback method.
@@ -342,9 +363,11 @@ class SQLTransaction(object):
         swallow
             A flag (defaults to False) indicating that *err* should be
             swallowed, rather than re-raised."""
-        if not self.no_commit:
+        if not self.no_commit and self.connection.writer in (None, self):
+            self.connection.writer = None
             try:
-                self.connection.dbc.rollback()
+                if self.connection.dbc is not None:
+                    self.connection.dbc.rollback()
                 if err is not None:
                     logging.info(
                         "rollback invoked for transaction following error %s",
@@ -353,10 +376,9 @@ class SQLTransaction(object):
                 if err is not None:
                     if self.query_count:
                         logging.error(
-                            "Data Integrity Error on TABLE %s: rollback "
+                            "Data Integrity Error: rollback "
                             "invoked on a connection that does not "
                             "support transactions after error %s",
-                            self.table_name,
                             str(err))
                     else:
                         logging.info(
@@ -379,6 +401,9 @@ class SQLTransaction(object):
         if self.no_commit:
             self.no_commit = self.no_commit - 1
         elif self.cursor is not None:
+            if self.connection.writer is self:
+                # neither committed nor rolled back
+                self.rollback()
             self.cursor.close()
             self.cursor = None
             self.query_count = 0
@@ -4070,6 +4095,8 @@ class SQLConnection(object):
         self.locked = 0
         self.last_seen = 0
         self.dbc = None
+        #: the :py:class:`SQLTransaction` with uncommitted changes, if any
+        self.writer = None
 
 
 class SQLEntityContainer(object):
-- 
2.43.0


From 4f8d004e1b66553f94f6834fdf8a6245bb1854d7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:12:13 +0000
Subject: [PATCH 073/126] fix: updating blocks must not deadlock on their locks

---
 pyslet/blockstore.py | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/pyslet/blockstore.py b/pyslet/blockstore.py
index 56ee4ef..c1cb488 100755
--- a/pyslet/blockstore.py
+++ b/pyslet/blockstore.py
@@ -587,9 +587,11 @@ class StreamStore(object):
         hash_value = edm.EDMValue.from_type(edm.SimpleType.String)
         filter.add_operand(core.LiteralExpression(hash_value))
         # filter is: hash eq <hash_value>
+        # everyone must obtain the two locks in the same order
+        lock1, lock2 = sorted((hash_key, new_hash))
         with self.block_set.open() as base_coll:
-            with self.ls.lock(hash_key):
-                with self.ls.lock(new_hash):
+            with self.ls.lock(lock1):
+                with self.ls.lock(lock2):
                     self.bs.store(data)
                     block['hash'].set_from_value(new_hash)
                     base_coll.update_entity(block)
-- 
2.43.0


From 692d2c0739e6d6b53c81284e0b12d771054d8b4f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:12:13 +0000
Subject: [PATCH 074/126] fix: a block that could not be stored must be stored
 by the next attempt

---
 pyslet/blockstore.py | 12 +++++++++---
 1 file changed, 9 insertions(+), 3 deletions(-)

diff --git a/pyslet/blockstore.py b/pyslet/blockstore.py
index c1cb488..4641211 100755
--- a/pyslet/blockstore.py
+++ b/pyslet/blockstore.py
@@ -571,10 +571,11 @@ class StreamStore(object):
             block = blocks.new_entity()
             block['num'].set_from_value(block_num)
             block['hash'].set_from_value(hash_key)
-            blocks.insert_entity(block)
-            # now ensure that the data is stored
+            # never refer to data that isn't there, nobody can delete the
+            # data while we have the lock
             with self.ls.lock(hash_key):
                 self.bs.store(data)
+                blocks.insert_entity(block)
             return block
 
     def update_block(self, block, data):
@@ -594,7 +595,12 @@ class StreamStore(object):
                 with self.ls.lock(lock2):
                     self.bs.store(data)
                     block['hash'].set_from_value(new_hash)
-                    base_coll.update_entity(block)
+                    try:
+                        base_coll.update_entity(block)
+                    except Exception:
+                        # the caller may try again
+                        block['hash'].set_from_value(hash_key)
+                        raise
                     # is the old hash key used anywhere?
                     hash_value.set_from_value(hash_key)
                     base_coll.set_filter(filter)
-- 
2.43.0


From 3c8857c6382b352c8bf4b8a9d1345fea45085daa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:12:13 +0000
Subject: [PATCH 075/126] fix: block streams must read back what was written
 when re-opened, appended to or extended

---
 pyslet/blockstore.py   | 109 ++++++++++++++++++++++++-----------------
 pyslet/odata2/sqlds.py |   2 +-
 2 files changed, 66 insertions(+), 45 deletions(-)

diff --git a/pyslet/blockstore.py b/pyslet/blockstore.py
index 4641211..fda6ae8 100755
--- a/pyslet/blockstore.py
+++ b/pyslet/blockstore.py
@@ -654,7 +654,7 @@ class BlockStream(io.RawIOBase):
         self.ss = ss
         self.stream = stream
         self.r = "r" in mode or "+" in mode
-        self.w = "w" in mode or "+" in mode
+        self.w = "w" in mode or "+" in mode or "a" in mode
         self.size = stream['size'].value
         self.block_size = self.ss.bs.max_block_size
         self._bdata = None
@@ -663,18 +663,23 @@ class BlockStream(io.RawIOBase):
         self._btop = 0
         self._bdirty = False
         self._md5 = None
-        if "a" in mode:
-            self.seek(self.size)
-            self.blocks = list(self.ss.retrieve_blocklist(self.stream))
-        else:
+        if "w" in mode:
+            self.ss.delete_blocks(self.stream)
+            self.blocks = []
+            self._md5 = hashlib.md5()
+            self._md5num = 0
             self.seek(0)
-            if "w" in mode:
-                self.ss.delete_blocks(self.stream)
-                self.blocks = []
-                self._md5 = hashlib.md5()
-                self._md5num = 0
+            if self.size:
+                # the stream is empty now
+                self.size = 0
+                self._set_btop()
+                self._bdirty = True
+        else:
+            self.blocks = list(self.ss.retrieve_blocklist(self.stream))
+            if "a" in mode:
+                self.seek(self.size)
             else:
-                self.blocks = list(self.ss.retrieve_blocklist(self.stream))
+                self.seek(0)
 
     def close(self):
         super(BlockStream, self).close()
@@ -692,41 +697,47 @@ class BlockStream(io.RawIOBase):
 
     def seek(self, offset, whence=io.SEEK_SET):
         if whence == io.SEEK_SET:
-            self.pos = offset
+            pos = offset
         elif whence == io.SEEK_CUR:
-            self.pos += offset
+            pos = self.pos + offset
         elif whence == io.SEEK_END:
-            self.pos = self.size + offset
+            pos = self.size + offset
         else:
             raise IOError("bad value for whence in seek")
-        new_bnum = self.pos // self.block_size
+        if pos < 0:
+            raise IOError("negative position in seek")
+        new_bnum = pos // self.block_size
         if new_bnum != self._bnum:
             self.flush()
             self._bdata = None
             self._bnum = new_bnum
+        self.pos = pos
         self._bpos = self.pos % self.block_size
         self._set_btop()
+        return self.pos
 
     def _set_btop(self):
-        if self.size // self.block_size == self._bnum:
-            # we're pointing to the last block
-            self._btop = self.size % self.block_size
-        else:
-            self._btop = self.block_size
+        # the last block may be incomplete and there may be nothing at all
+        # in the blocks beyond it
+        self._btop = max(0, min(self.size - self._bnum * self.block_size,
+                                self.block_size))
 
     def flush(self):
         if self._bdirty:
             # the current block is dirty, write it out
-            data = self._bdata[:self._btop]
+            if self._bdata is None:
+                data = b''
+            else:
+                data = bytes(self._bdata[:self._btop])
             if data:
                 block = self.blocks[self._bnum]
                 if block.exists:
-                    self.ss.update_block(block, bytes(data))
+                    self.ss.update_block(block, data)
                 else:
                     self.blocks[self._bnum] = self.ss.store_block(
                         self.stream, self._bnum, data)
                 if self._md5 is not None and self._bnum == self._md5num:
-                    self._md5.update(bytes(data))
+                    self._md5.update(data)
                     self._md5num += 1
                 else:
                     self._md5 = None
@@ -769,34 +780,25 @@ class BlockStream(io.RawIOBase):
     def write(self, b):
         if not self.w:
             raise IOError("stream not open for writing")
+        if not len(b):
+            return 0
         # we can always write something in the block, nbytes > 0
         nbytes = self.block_size - self._bpos
         if self._bdata is None:
-            if self._btop <= 0:
-                # add a new empty blocks first
-                last_block = len(self.blocks)
-                while last_block < self._bnum:
-                    self.blocks.append(self.ss.store_block(
-                        self.stream, last_block, bytearray(self.block_size)))
-                    last_block += 1
-                    self.size = last_block * self.block_size
-                # force the new size to be written
-                self._bdata = bytearray(self.block_size)
-                self._bdirty = True
-                self.flush()
-                # finally add the last block, but don't store it yet
+            # create a full size block
+            bdata = bytearray(self.block_size)
+            if self._bnum < len(self.blocks):
+                if self.blocks[self._bnum].exists:
+                    data = self.ss.retrieve_block(self.blocks[self._bnum])
+                    bdata[:len(data)] = data
+            else:
+                self._fill_gap()
+                # add the last block, but don't store it yet
                 with self.stream['Blocks'].open() as blist:
                     new_block = blist.new_entity()
                     new_block['num'].set_from_value(self._bnum)
                     self.blocks.append(new_block)
-                self.size = self.pos
-                self._set_btop()
-                if self._bpos:
-                    self._bdirty = True
-            else:
-                self._bdata = bytearray(self.block_size)
-                data = self.ss.retrieve_block(self.blocks[self._bnum])
-                self._bdata[:len(data)] = data
+            self._bdata = bdata
         if nbytes > len(b):
             nbytes = len(b)
         self._bdata[self._bpos:self._bpos + nbytes] = b[:nbytes]
@@ -806,3 +808,22 @@ class BlockStream(io.RawIOBase):
             self._set_btop()
         self.seek(nbytes, io.SEEK_CUR)
         return nbytes
+
+    def _fill_gap(self):
+        """Adds zeros to the stream until the current block is next"""
+        nblocks = len(self.blocks)
+        if nblocks:
+            # the last block may be incomplete
+            data = self.ss.retrieve_block(self.blocks[-1])
+            if len(data) < self.block_size:
+                self.ss.update_block(
+                    self.blocks[-1],
+                    data + b'\x00' * (self.block_size - len(data)))
+                self.size = nblocks * self.block_size
+                self._md5 = None
+        while nblocks < self._bnum:
+            self.blocks.append(self.ss.store_block(
+                self.stream, nblocks, b'\x00' * self.block_size))
+            nblocks += 1
+            self.size = nblocks * self.block_size
+            self._md5 = None
diff --git a/pyslet/odata2/sqlds.py b/pyslet/odata2/sqlds.py
index 6fdcc2d..f74583c 100755
--- a/pyslet/odata2/sqlds.py
+++ b/pyslet/odata2/sqlds.py
@@ -5773,7 +5773,7 @@ class SQLiteStreamStore(blockstore.StreamStore):
                                                container=self.container_def)
         if create:
             self.container.create_all_tables()
-        if dpath is None:
+        if dpath is not None:
             bs = blockstore.FileBlockStore(dpath)
         else:
             bs = blockstore.EDMBlockStore(
-- 
2.43.0


From f758589df02920c4402b3cc17b19c41316967b38 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:18:32 +0000
Subject: [PATCH 076/126] fix: iterating over the in-memory store must survive
 concurrent changes

---
 pyslet/odata2/memds.py | 29 ++++++++++++++++-------------
 1 file changed, 16 insertions(+), 13 deletions(-)

diff --git a/pyslet/odata2/memds.py b/pyslet/odata2/memds.py
index 47da178..6a0a4ba 100644
--- a/pyslet/odata2/memds.py
+++ b/pyslet/odata2/memds.py
@@ -109,7 +109,7 @@ class InMemoryEntityStore(object):
         deleted during the iteration *may* not be yielded but an entity
         inserted during the iteration will never be yielded."""
         with self.container.lock:
-            keys = dict_keys(self.data)
+            keys = list(dict_keys(self.data))
         for k in keys:
             e = self.read_entity(k, select)
             if e is not None:
@@ -731,10 +731,13 @@ class NavigationCollection(odata.NavigationCollection):
             return result
 
     def entity_generator(self):
-        # we create a collection from the appropriate entity set first
-        result_set = self.lookupMethod(self.key)
-        for k in result_set:
-            yield self.collection[k]
+        # the entities can be deleted or unlinked as soon as we release
+        # the lock
+        with self.aindex.container.lock:
+            result_set = [self.collection[k]
+                          for k in self.lookupMethod(self.key)]
+        for e in result_set:
+            yield e
 
     def itervalues(self):
         return self.order_entities(
@@ -743,15 +746,15 @@ class NavigationCollection(odata.NavigationCollection):
                     self.entity_generator())))
 
     def __getitem__(self, key):
-        result_set = self.lookupMethod(self.key)
-        if key in result_set:
+        with self.aindex.container.lock:
+            if key not in self.lookupMethod(self.key):
+                raise KeyError(key)
             result = self.collection[key]
-            if self.filter is None:
-                if self.check_filter(result):
-                    return result
-            else:
-                return result
-        raise KeyError(key)
+        if not self.check_filter(result):
+            raise KeyError(key)
+        if self.expand or self.select:
+            result.expand(self.expand, self.select)
+        return result
 
     def __setitem__(self, key, value):
         result_set = self.lookupMethod(self.key)
-- 
2.43.0


From fb1191fa705f6ff35c8451fcd3215e1722ee1cdb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:18:52 +0000
Subject: [PATCH 077/126] fix: links of the in-memory store must be checked and
 changed under its lock

---
 pyslet/odata2/memds.py | 117 ++++++++++++++++++++++++-----------------
 1 file changed, 68 insertions(+), 49 deletions(-)

diff --git a/pyslet/odata2/memds.py b/pyslet/odata2/memds.py
index 6a0a4ba..67740e9 100644
--- a/pyslet/odata2/memds.py
+++ b/pyslet/odata2/memds.py
@@ -715,10 +715,11 @@ class NavigationCollection(odata.NavigationCollection):
     def insert_entity(self, entity):
         """Inserts a new *entity* into the target entity set *and*
         simultaneously creates a link to it from the source entity."""
-        with self.entity_set.open() as baseCollection:
-            baseCollection.insert_entity(entity,
-                                         from_end=self.from_end.otherEnd)
-            self[entity.key()] = entity
+        with self.aindex.container.lock:
+            with self.entity_set.open() as baseCollection:
+                baseCollection.insert_entity(entity,
+                                             from_end=self.from_end.otherEnd)
+                self[entity.key()] = entity
 
     def __len__(self):
         if self.filter is None:
@@ -756,29 +757,54 @@ class NavigationCollection(odata.NavigationCollection):
             result.expand(self.expand, self.select)
         return result
 
-    def __setitem__(self, key, value):
-        result_set = self.lookupMethod(self.key)
-        if key in result_set:
-            # no operation
-            return
+    def _check_new_link(self, key, value):
+        """Raises an error if we can't link to the entity with *key*
+
+        The multiplicity at our end is not checked.  Not thread-safe,
+        must only be called if you have acquired the container lock."""
         # forces a check of value to ensure it is good
         self.collection[key] = value
-        if self.toMultiplicity != edm.Multiplicity.Many:
-            if result_set:
-                raise edm.NavigationConstraintError(
-                    "Can't add multiple links to navigation property %s" %
-                    self.name)
+        if self.reverse:
+            from_store = self.aindex.to_store
+        else:
+            from_store = self.aindex.from_store
+        if not from_store.test_key(self.key):
+            raise edm.NonExistentEntity(
+                "Can't link from deleted entity %s" %
+                str(self.from_entity.get_location()))
         if self.fromMultiplicity != edm.Multiplicity.Many:
             if self.rLookupMethod(key):
                 raise edm.NavigationConstraintError(
                     "Entity %s is already bound through this association" %
                     value.get_location())
-        # clear to add this one to the index
+
+    def _add_link(self, key):
         if self.reverse:
             self.aindex.add_link(key, self.key)
         else:
             self.aindex.add_link(self.key, key)
 
+    def _remove_link(self, key):
+        if self.reverse:
+            self.aindex.remove_link(key, self.key)
+        else:
+            self.aindex.remove_link(self.key, key)
+
+    def __setitem__(self, key, value):
+        with self.aindex.container.lock:
+            result_set = self.lookupMethod(self.key)
+            if key in result_set:
+                # no operation
+                return
+            if self.toMultiplicity != edm.Multiplicity.Many:
+                if result_set:
+                    raise edm.NavigationConstraintError(
+                        "Can't add multiple links to navigation property %s" %
+                        self.name)
+            self._check_new_link(key, value)
+            # clear to add this one to the index
+            self._add_link(key)
+
     def __delitem__(self, key):
         # Before we remove a link we need to know if either entity
         # requires a link, if so, this deletion will result in a
@@ -786,44 +812,37 @@ class NavigationCollection(odata.NavigationCollection):
         if (self.fromMultiplicity == edm.Multiplicity.One or
                 self.toMultiplicity == edm.Multiplicity.One):
             raise edm.NavigationConstraintError("Can't remove a required link")
-        result_set = self.lookupMethod(self.key)
-        if key not in result_set:
-            raise KeyError
-        if self.reverse:
-            self.aindex.remove_link(key, self.key)
-        else:
-            self.aindex.remove_link(self.key, key)
+        with self.aindex.container.lock:
+            if key not in self.lookupMethod(self.key):
+                raise KeyError
+            self._remove_link(key)
 
     def replace(self, entity):
         key = entity.key()
-        result_set = list(self.lookupMethod(self.key))
-        if result_set == [key]:
-            # nothing to do!
-            return
-        if self.fromMultiplicity == edm.Multiplicity.One:
-            if result_set:
-                # we can't delete these links because we are required
-                raise edm.NavigationConstraintError(
-                    "Can't remove a required link")
-            else:
-                self[key] = entity
-        else:
-            # add the new link first
-            if key not in result_set:
-                if self.reverse:
-                    self.aindex.add_link(key, self.key)
+        with self.aindex.container.lock:
+            result_set = list(self.lookupMethod(self.key))
+            if result_set == [key]:
+                # nothing to do!
+                return
+            if self.fromMultiplicity == edm.Multiplicity.One:
+                if result_set:
+                    # we can't delete these links because we are required
+                    raise edm.NavigationConstraintError(
+                        "Can't remove a required link")
                 else:
-                    self.aindex.add_link(self.key, key)
-            for oldKey in result_set:
-                # now remove all the old keys.  This implementation
-                # is the same regardless of the allowed multiplicity.
-                # This doesn't just save coding, it ensures that
-                # corrupted indexes are self-correcting
-                if oldKey != key:
-                    if self.reverse:
-                        self.aindex.remove_link(oldKey, self.key)
-                    else:
-                        self.aindex.remove_link(self.key, oldKey)
+                    self[key] = entity
+            else:
+                # add the new link first
+                if key not in result_set:
+                    self._check_new_link(key, entity)
+                    self._add_link(key)
+                for oldKey in result_set:
+                    # now remove all the old keys.  This implementation
+                    # is the same regardless of the allowed multiplicity.
+                    # This doesn't just save coding, it ensures that
+                    # corrupted indexes are self-correcting
+                    if oldKey != key:
+                        self._remove_link(oldKey)
 
 
 class InMemoryEntityContainer(object):
-- 
2.43.0


From 756a5983baae5a78cc85de9dfa2c166c596b5c69 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:20:21 +0000
Subject: [PATCH 078/126] fix: an operation that fails must leave the in-memory
 store unchanged

---
 pyslet/odata2/memds.py | 136 ++++++++++++++++++++++++++++++++---------
 1 file changed, 106 insertions(+), 30 deletions(-)

diff --git a/pyslet/odata2/memds.py b/pyslet/odata2/memds.py
index 67740e9..c68315d 100644
--- a/pyslet/odata2/memds.py
+++ b/pyslet/odata2/memds.py
@@ -1,6 +1,7 @@
 #! /usr/bin/env python
 """A simple Entity store using a python dictionary"""
 
+import contextlib
 import hashlib
 import threading
 import logging
@@ -96,6 +97,11 @@ class InMemoryEntityStore(object):
             # At this point the entity exists
             e.exists = True
 
+            def undo():
+                del self.data[key]
+                e.exists = False
+            self.container.add_undo(undo)
+
     def count_entities(self):
         with self.container.lock:
             return len(self.data)
@@ -166,7 +172,8 @@ class InMemoryEntityStore(object):
         # e is an EntityTypeInstance, we need to convert it to a tuple
         key = e.key()
         with self.container.lock:
-            value = list(self.data[key])
+            old_value = self.data[key]
+            value = list(old_value)
             if check_tokens:
                 self.check_concurrency_tokens(e, value)
             i = 0
@@ -192,6 +199,10 @@ class InMemoryEntityStore(object):
                 i = i + 1
             self.data[key] = tuple(value)
 
+            def undo():
+                self.data[key] = old_value
+            self.container.add_undo(undo)
+
     def check_concurrency_tokens(self, e, value):
         """Raises ConcurrencyError if e's tokens are not the stored ones
 
@@ -218,12 +229,26 @@ class InMemoryEntityStore(object):
             # this token is the hash of the entity's stream
             return
         if tokens:
+            old_tokens = [(p, p.value) for p in tokens]
+
+            def undo():
+                for p, old_value in old_tokens:
+                    p.set_from_value(old_value)
+            self.container.add_undo(undo)
             e.set_concurrency_tokens()
 
     def update_entity_stream(self, key, stream, sinfo):
         with self.container.lock:
+            old_stream = self.streams.get(key, None)
             self.streams[key] = (stream, sinfo)
 
+            def undo():
+                if old_stream is None:
+                    del self.streams[key]
+                else:
+                    self.streams[key] = old_stream
+            self.container.add_undo(undo)
+
     def get_tuple_from_complex(self, complex_value):
         value = []
         for pname in complex_value.iterkeys():
@@ -282,9 +307,14 @@ class InMemoryEntityStore(object):
                 aindex.delete_hook(key)
             for aindex in dict_values(self.reverseAssociations):
                 aindex.rdelete_hook(key)
-            del self.data[key]
-            if key in self.streams:
-                del self.streams[key]
+            old_value = self.data.pop(key)
+            old_stream = self.streams.pop(key, None)
+
+            def undo():
+                self.data[key] = old_value
+                if old_stream is not None:
+                    self.streams[key] = old_stream
+            self.container.add_undo(undo)
 
     def test_key(self, key):
         """Return True if *key* is in the container.
@@ -361,6 +391,9 @@ class InMemoryAssociationIndex(object):
     def add_link(self, from_key, to_key):
         """Adds a link from *from_key* to *to_key*"""
         with self.container.lock:
+            if to_key not in self.index.get(from_key, ()):
+                self.container.add_undo(
+                    lambda: self.remove_link(from_key, to_key))
             self.index.setdefault(from_key, set()).add(to_key)
             self.reverseIndex.setdefault(to_key, set()).add(from_key)
 
@@ -377,34 +410,27 @@ class InMemoryAssociationIndex(object):
     def remove_link(self, from_key, to_key):
         """Removes a link from *from_key* to *to_key*"""
         with self.container.lock:
+            if to_key in self.index.get(from_key, ()):
+                self.container.add_undo(
+                    lambda: self.add_link(from_key, to_key))
             self.index.get(from_key, set()).discard(to_key)
             self.reverseIndex.get(to_key, set()).discard(from_key)
 
     def delete_hook(self, from_key):
         """Called only by :py:meth:`InMemoryEntityStore.delete_entity`"""
-        try:
-            to_keys = self.index[from_key]
-            for to_key in to_keys:
-                from_keys = self.reverseIndex[to_key]
-                from_keys.remove(from_key)
-                if len(from_keys) == 0:
-                    del self.reverseIndex[to_key]
-            del self.index[from_key]
-        except KeyError:
-            pass
+        for to_key in self.get_links_from(from_key):
+            self.remove_link(from_key, to_key)
+            if not self.reverseIndex[to_key]:
+                del self.reverseIndex[to_key]
+        self.index.pop(from_key, None)
 
     def rdelete_hook(self, to_key):
         """Called only by :py:meth:`InMemoryEntityStore.delete_entity`"""
-        try:
-            from_keys = self.reverseIndex[to_key]
-            for from_key in from_keys:
-                to_keys = self.index[from_key]
-                to_keys.remove(to_key)
-                if len(to_keys) == 0:
-                    del self.index[from_key]
-            del self.reverseIndex[to_key]
-        except KeyError:
-            pass
+        for from_key in self.get_links_to(to_key):
+            self.remove_link(from_key, to_key)
+            if not self.index[from_key]:
+                del self.index[from_key]
+        self.reverseIndex.pop(to_key, None)
 
 
 # class WEntityStream(StringIO):
@@ -454,7 +480,7 @@ class EntityCollection(odata.EntityCollection):
         suppress a constraint check (on the assumption that it has
         already been checked) by passing *from_end* directly to
         :py:meth:`Entity.check_navigation_constraints`."""
-        with self.entity_store.container.lock:
+        with self.entity_store.container.transaction():
             # This is a bit clumsy, but we lock the whole container while we
             # check all constraints and perform any nested deletes
             try:
@@ -505,11 +531,25 @@ class EntityCollection(odata.EntityCollection):
 
     def update_entity(self, entity, merge=True):
         # force an error if we don't have a key
-        with self.entity_store.container.lock:
+        with self.entity_store.container.transaction():
             self.entity_store.update_entity(entity, merge)
             # now process any bindings
             self.update_bindings(entity)
 
+    def update_bindings(self, entity):
+        # if we fail then nothing has been bound
+        for name, dv in entity.navigation_items():
+            if dv.bindings:
+                self._undo_bindings(dv)
+            dv.update_bindings()
+
+    def _undo_bindings(self, dv):
+        bindings = list(dv.bindings)
+
+        def undo():
+            dv.bindings = bindings
+        self.entity_store.container.add_undo(undo)
+
     def __delitem__(self, key):
         """We do a cascade delete of everything that *must* be linked to
         us. We don't need to bother about deleting links because the
@@ -517,7 +557,7 @@ class EntityCollection(odata.EntityCollection):
 
         The container is locked throughout so the only deletions that
         can be found to be in progress are our own."""
-        with self.entity_store.container.lock:
+        with self.entity_store.container.transaction():
             self._cascade_delete(key)
 
     def _cascade_delete(self, key):
@@ -615,7 +655,7 @@ class EntityCollection(odata.EntityCollection):
         sinfo.md5 = hashlib.md5(data).digest()
         # we need the lock to ensure the entity and stream and updated
         # together
-        with self.entity_store.container.lock:
+        with self.entity_store.container.transaction():
             if key is None:
                 e.auto_key()
             else:
@@ -656,7 +696,7 @@ class EntityCollection(odata.EntityCollection):
         sinfo.md5 = hashlib.md5(data).digest()
         # we need the lock to ensure the entity and stream and updated
         # together
-        with self.entity_store.container.lock:
+        with self.entity_store.container.transaction():
             if update:
                 # the new token is the hash of the stream
                 new_value = etag.value
@@ -715,7 +755,7 @@ class NavigationCollection(odata.NavigationCollection):
     def insert_entity(self, entity):
         """Inserts a new *entity* into the target entity set *and*
         simultaneously creates a link to it from the source entity."""
-        with self.aindex.container.lock:
+        with self.aindex.container.transaction():
             with self.entity_set.open() as baseCollection:
                 baseCollection.insert_entity(entity,
                                              from_end=self.from_end.otherEnd)
@@ -853,6 +893,9 @@ class InMemoryEntityContainer(object):
         """a lock that must be acquired before modifying any entity or
         association in this container"""
         self.lock = threading.RLock()
+        # how to undo the changes of the transaction in progress
+        self._undo = []
+        self._transactions = 0
         """a mapping from entity set names to
         :py:class:`InMemoryEntityStore` instances"""
         self.entityStorage = {}
@@ -892,3 +935,36 @@ class InMemoryEntityContainer(object):
                         from_storage,
                         to_storage,
                         np.name)
+
+    @contextlib.contextmanager
+    def transaction(self):
+        """Returns a context manager that makes a group of changes
+
+        The container is locked until the end, if an exception is raised
+        then all changes made since the beginning are undone.
+        Transactions can be nested."""
+        with self.lock:
+            mark = len(self._undo)
+            self._transactions += 1
+            try:
+                yield self
+            except BaseException:
+                undo = self._undo[mark:]
+                del self._undo[mark:]
+                for fn in reversed(undo):
+                    fn()
+                # undoing is not something that can be undone
+                del self._undo[mark:]
+                raise
+            finally:
+                self._transactions -= 1
+                if not self._transactions:
+                    del self._undo[:]
+
+    def add_undo(self, fn):
+        """Adds a function that undoes a change just made
+
+        Not thread-safe, must only be called if you have acquired the
+        container lock."""
+        if self._transactions:
+            self._undo.append(fn)
-- 
2.43.0


From f40547a69b5ddc1bfa40a8cb889154e55303b647 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:20:27 +0000
Subject: [PATCH 079/126] fix: media streams of the in-memory store must belong
 to an entity and keep their description

---
 pyslet/odata2/memds.py | 14 +++++++++-----
 1 file changed, 9 insertions(+), 5 deletions(-)

diff --git a/pyslet/odata2/memds.py b/pyslet/odata2/memds.py
index c68315d..b56b182 100644
--- a/pyslet/odata2/memds.py
+++ b/pyslet/odata2/memds.py
@@ -2,6 +2,7 @@
 """A simple Entity store using a python dictionary"""
 
 import contextlib
+import copy
 import hashlib
 import threading
 import logging
@@ -164,9 +165,9 @@ class InMemoryEntityStore(object):
                 raise KeyError
             if key in self.streams:
                 stream, sinfo = self.streams[key]
-                return stream, sinfo
+                return stream, copy.copy(sinfo)
             else:
-                return '', odata.StreamInfo(size=0)
+                return b'', odata.StreamInfo(size=0)
 
     def update_entity(self, e, merge=True, check_tokens=True):
         # e is an EntityTypeInstance, we need to convert it to a tuple
@@ -239,8 +240,11 @@ class InMemoryEntityStore(object):
 
     def update_entity_stream(self, key, stream, sinfo):
         with self.container.lock:
+            if key not in self.data:
+                raise KeyError(repr(key))
             old_stream = self.streams.get(key, None)
-            self.streams[key] = (stream, sinfo)
+            # the caller may use sinfo again
+            self.streams[key] = (stream, copy.copy(sinfo))
 
             def undo():
                 if old_stream is None:
@@ -498,8 +502,8 @@ class EntityCollection(odata.EntityCollection):
             if key is None:
                 logging.error("Failed to find an unused key in %s "
                               "after 100 attempts", entity.entity_set.name)
-                raise edm.EDMError("Auto-key failure" %
-                                   odata.ODataURI.format_entity_key(entity))
+                raise edm.EDMError(
+                    "Auto-key failure: %s" % entity.entity_set.name)
             # Check constraints
             entity.check_navigation_constraints(from_end)
             self.entity_store.add_entity(entity)
-- 
2.43.0


From 1b4f903f4c95966923b5d2a247dba5b31f68fe7e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:22:01 +0000
Subject: [PATCH 080/126] fix: a block that could not be read must not be taken
 for zeros

---
 pyslet/blockstore.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/pyslet/blockstore.py b/pyslet/blockstore.py
index fda6ae8..9e97fa1 100755
--- a/pyslet/blockstore.py
+++ b/pyslet/blockstore.py
@@ -766,9 +766,10 @@ class BlockStream(io.RawIOBase):
             # load the data
             if self.w:
                 # create a full size block in case we also write
-                self._bdata = bytearray(self.block_size)
+                bdata = bytearray(self.block_size)
                 data = self.ss.retrieve_block(self.blocks[self._bnum])
-                self._bdata[:len(data)] = data
+                bdata[:len(data)] = data
+                self._bdata = bdata
             else:
                 self._bdata = self.ss.retrieve_block(self.blocks[self._bnum])
         if nbytes > len(b):
-- 
2.43.0


From f4458d7133003a49157046705ab60e4697078be3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:23:55 +0000
Subject: [PATCH 081/126] fix: writing a block again must not store it twice

---
 pyslet/blockstore.py | 9 +++++----
 1 file changed, 5 insertions(+), 4 deletions(-)

diff --git a/pyslet/blockstore.py b/pyslet/blockstore.py
index 9e97fa1..6af622c 100755
--- a/pyslet/blockstore.py
+++ b/pyslet/blockstore.py
@@ -565,10 +565,11 @@ class StreamStore(object):
             del streams[stream.key()]
             stream.exists = False
 
-    def store_block(self, stream, block_num, data):
+    def store_block(self, stream, block_num, data, block=None):
         hash_key = self.bs.key(data)
         with stream['Blocks'].open() as blocks:
-            block = blocks.new_entity()
+            if block is None:
+                block = blocks.new_entity()
             block['num'].set_from_value(block_num)
             block['hash'].set_from_value(hash_key)
             # never refer to data that isn't there, nobody can delete the
@@ -734,8 +735,8 @@ class BlockStream(io.RawIOBase):
                 if block.exists:
                     self.ss.update_block(block, data)
                 else:
-                    self.blocks[self._bnum] = self.ss.store_block(
-                        self.stream, self._bnum, data)
+                    # if this fails then block tells us if it exists
+                    self.ss.store_block(self.stream, self._bnum, data, block)
                 if self._md5 is not None and self._bnum == self._md5num:
                     self._md5.update(data)
                     self._md5num += 1
-- 
2.43.0


From 2117736194528eab759c88cde1a4ef7774507059 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:25:52 +0000
Subject: [PATCH 082/126] fix: padding a binary concurrency token must not fail

---
 pyslet/odata2/csdl.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pyslet/odata2/csdl.py b/pyslet/odata2/csdl.py
index 3d6b431..c5c6ba6 100755
--- a/pyslet/odata2/csdl.py
+++ b/pyslet/odata2/csdl.py
@@ -2774,7 +2774,7 @@ class Entity(SortableMixin, TypeInstance):
                 if t.p_def.fixedLength:
                     if t.p_def.maxLength > len(h):
                         # we need to zero-pad our binary string
-                        h = h.ljust(t.p_def.maxLength, '\x00')
+                        h = h.ljust(t.p_def.maxLength, b'\x00')
                 t.set_from_value(h)
             elif isinstance(t, StringValue):
                 h = self.generate_ctoken().hexdigest()
-- 
2.43.0


From 5e2cf2fe7e8d84294d6f8f5f2939269743d6a4a0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:25:52 +0000
Subject: [PATCH 083/126] fix: an SQL insert or update that fails must leave
 the entity in memory unchanged

---
 pyslet/odata2/sqlds.py | 25 +++++++++++++++++++++++++
 1 file changed, 25 insertions(+)

diff --git a/pyslet/odata2/sqlds.py b/pyslet/odata2/sqlds.py
index f74583c..b92f001 100755
--- a/pyslet/odata2/sqlds.py
+++ b/pyslet/odata2/sqlds.py
@@ -301,6 +301,8 @@ class SQLTransaction(object):
         self.cursor = None
         self.no_commit = 0      #: used to manage nested transactions
         self.query_count = 0    #: records the number of successful commands
+        # what to do to entities in memory on rollback
+        self._undo = []
 
     @retry_decorator
     def begin(self):
@@ -342,6 +344,25 @@ class SQLTransaction(object):
             return
         self.connection.dbc.commit()
         self.connection.writer = None
+        self._undo = []
+
+    def undo_on_rollback(self, entity):
+        """Saves the state of *entity* before it is inserted or updated
+
+        If this transaction is rolled back the entity's existence, its
+        bindings and its concurrency tokens will be as they are now."""
+        exists = entity.exists
+        bindings = [(dv, list(dv.bindings))
+                    for k, dv in entity.navigation_items()]
+        tokens = [(v, v.value) for v in entity.etag_values()]
+
+        def undo():
+            entity.exists = exists
+            for dv, value in bindings:
+                dv.bindings = value
+            for v, value in tokens:
+                v.set_from_value(value)
+        self._undo.append(undo)
 
     def rollback(self, err=None, swallow=False):
         """Calls the underlying database connection rollback method.
@@ -365,6 +386,8 @@ class SQLTransaction(object):
             swallowed, rather than re-raised."""
         if not self.no_commit and self.connection.writer in (None, self):
             self.connection.writer = None
+            while self._undo:
+                self._undo.pop()()
             try:
                 if self.connection.dbc is not None:
                     self.connection.dbc.rollback()
@@ -2206,6 +2229,7 @@ class SQLEntityCollection(SQLCollectionBase):
         fk_mapping = self.container.fk_table[self.entity_set.name]
         try:
             transaction.begin()
+            transaction.undo_on_rollback(entity)
             nav_done = set()
             for link_end, nav_name in dict_items(self.entity_set.linkEnds):
                 if nav_name:
@@ -2483,6 +2507,7 @@ class SQLEntityCollection(SQLCollectionBase):
         transaction = SQLTransaction(self.container, self.connection)
         try:
             transaction.begin()
+            transaction.undo_on_rollback(entity)
             nav_done = set()
             for k, dv in entity.navigation_items():
                 link_end = self.entity_set.navigation[k]
-- 
2.43.0


From 01f2c0be3592a9a1b0ba6c3748c52fa20de304a9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:29:28 +0000
Subject: [PATCH 084/126] fix: filling a gap again must not store its blocks
 twice

---
 pyslet/blockstore.py | 33 ++++++++++++++++++++-------------
 1 file changed, 20 insertions(+), 13 deletions(-)

diff --git a/pyslet/blockstore.py b/pyslet/blockstore.py
index 6af622c..09bd191 100755
--- a/pyslet/blockstore.py
+++ b/pyslet/blockstore.py
@@ -796,10 +796,7 @@ class BlockStream(io.RawIOBase):
             else:
                 self._fill_gap()
                 # add the last block, but don't store it yet
-                with self.stream['Blocks'].open() as blist:
-                    new_block = blist.new_entity()
-                    new_block['num'].set_from_value(self._bnum)
-                    self.blocks.append(new_block)
+                self._new_block()
             self._bdata = bdata
         if nbytes > len(b):
             nbytes = len(b)
@@ -811,21 +808,31 @@ class BlockStream(io.RawIOBase):
         self.seek(nbytes, io.SEEK_CUR)
         return nbytes
 
+    def _new_block(self):
+        """Adds a block to our list, but doesn't store it yet"""
+        with self.stream['Blocks'].open() as blist:
+            new_block = blist.new_entity()
+            new_block['num'].set_from_value(len(self.blocks))
+            self.blocks.append(new_block)
+        return new_block
+
     def _fill_gap(self):
         """Adds zeros to the stream until the current block is next"""
-        nblocks = len(self.blocks)
-        if nblocks:
+        # forget what we failed to store last time
+        while self.blocks and not self.blocks[-1].exists:
+            self.blocks.pop()
+        if self.blocks:
             # the last block may be incomplete
             data = self.ss.retrieve_block(self.blocks[-1])
             if len(data) < self.block_size:
                 self.ss.update_block(
                     self.blocks[-1],
                     data + b'\x00' * (self.block_size - len(data)))
-                self.size = nblocks * self.block_size
-                self._md5 = None
-        while nblocks < self._bnum:
-            self.blocks.append(self.ss.store_block(
-                self.stream, nblocks, b'\x00' * self.block_size))
-            nblocks += 1
-            self.size = nblocks * self.block_size
+        while len(self.blocks) < self._bnum:
+            block_num = len(self.blocks)
+            self.ss.store_block(
+                self.stream, block_num, b'\x00' * self.block_size,
+                self._new_block())
+        if self.size < self._bnum * self.block_size:
+            self.size = self._bnum * self.block_size
             self._md5 = None
-- 
2.43.0


From ab324fb4ccf2551ae09ac6dba842e35d14946974 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:44:10 +0000
Subject: [PATCH 085/126] fix: an SQL foreign key of a 1-1 or 0..1-1
 association must be unique

---
 pyslet/odata2/sqlds.py | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/pyslet/odata2/sqlds.py b/pyslet/odata2/sqlds.py
index b92f001..a629ad6 100755
--- a/pyslet/odata2/sqlds.py
+++ b/pyslet/odata2/sqlds.py
@@ -2786,8 +2786,8 @@ class SQLEntityCollection(SQLCollectionBase):
             transaction.commit()
         except self.container.dbapi.IntegrityError as e:
             transaction.rollback(e, swallow=True)
-            raise KeyError("Linked entity %s does not exist" %
-                           str(target_entity.get_location()))
+            raise KeyError("Linked entity %s does not exist or is already "
+                           "linked" % str(target_entity.get_location()))
         except Exception as e:
             transaction.rollback(e)
         finally:
@@ -3114,6 +3114,9 @@ class SQLEntityCollection(SQLCollectionBase):
                     fk_names), self.container.mangled_names[
                     (target_set.name,)], ', '.join(
                     k_names)))
+            if unique:
+                # 1-1 or 0..1-1, the target can't be linked to twice
+                constraints.append("UNIQUE (%s)" % ', '.join(fk_names))
         cols = cols + constraints
         query.append(", ".join(cols))
         query.append(')')
-- 
2.43.0


From 956cbda53f411c9195b0e873ce62b7c4dbda06a8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:01:02 +0000
Subject: [PATCH 086/126] fix: replacing a media stream of an SQL container
 must not race with other updates

---
 pyslet/odata2/sqlds.py | 32 +++++++++++++++++++++++++++-----
 1 file changed, 27 insertions(+), 5 deletions(-)

diff --git a/pyslet/odata2/sqlds.py b/pyslet/odata2/sqlds.py
index a629ad6..c2f2b98 100755
--- a/pyslet/odata2/sqlds.py
+++ b/pyslet/odata2/sqlds.py
@@ -872,6 +872,7 @@ class SQLCollectionBase(core.EntityCollection):
         else:
             h = None
         c, v = self.stream_field(e, prefix=False)
+        oldvalue = self._get_streamid(key)
         if self.container.streamstore:
             # spool the data into the store and store the stream key
             estream = self.container.streamstore.new_stream(sinfo.type,
@@ -888,7 +889,24 @@ class SQLCollectionBase(core.EntityCollection):
             raise NotImplementedError
         if h is not None:
             etag.set_from_value(h.digest())
-        oldvalue = self._get_streamid(key)
+        while not self._update_streamid(e, c, v, oldvalue, estream):
+            # someone else has updated the stream in the meantime
+            oldvalue = self._get_streamid(key)
+        # now remove the old stream
+        if oldvalue:
+            try:
+                oldstream = self.container.streamstore.get_stream(
+                    oldvalue.value)
+                self.container.streamstore.delete_stream(oldstream)
+            except Exception as err:
+                # the new stream is in place, so this is not our failure
+                logging.error("Orphan stream left behind in %s[%s]: %s",
+                              estream.entity_set.name, oldvalue.value,
+                              str(err))
+
+    def _update_streamid(self, e, c, v, oldvalue, estream):
+        # store the new stream value for the entity, provided that the
+        # old one is still in place, returns False if it isn't
         transaction = SQLTransaction(self.container, self.connection)
         try:
             transaction.begin()
@@ -905,11 +923,19 @@ class SQLCollectionBase(core.EntityCollection):
                     '%s=%s' %
                     (self.container.mangled_names[(self.entity_set.name, k)],
                      params.add_param(self.container.prepare_sql_value(kv))))
+            if oldvalue:
+                where.append(
+                    '%s=%s' % (c, params.add_param(
+                        self.container.prepare_sql_value(oldvalue))))
+            else:
+                where.append('%s IS NULL' % c)
             query.append(' AND '.join(where))
             query = ''.join(query)
             logging.info("%s; %s", query, to_text(params.params))
             transaction.execute(query, params)
+            updated = transaction.cursor.rowcount != 0
             transaction.commit()
+            return updated
         except Exception as e:
             # we allow the stream store to re-use the same database but
             # this means we can't transact on both at once (from the
@@ -920,10 +946,6 @@ class SQLCollectionBase(core.EntityCollection):
             transaction.rollback(e)
         finally:
             transaction.close()
-        # now remove the old stream
-        if oldvalue:
-            oldstream = self.container.streamstore.get_stream(oldvalue.value)
-            self.container.streamstore.delete_stream(oldstream)
 
     def _get_streamid(self, key, transaction=None):
         entity = self.new_entity()
-- 
2.43.0


From fa6aa2edf069ce2fa2d94a8e62d0bc7ffde17fc8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:20:06 +0000
Subject: [PATCH 087/126] fix: the SQL connections of terminated threads must
 be taken back

---
 pyslet/odata2/sqlds.py | 55 +++++++++++++++++++++++++++++++++++++++---
 1 file changed, 51 insertions(+), 4 deletions(-)

diff --git a/pyslet/odata2/sqlds.py b/pyslet/odata2/sqlds.py
index c2f2b98..58433e5 100755
--- a/pyslet/odata2/sqlds.py
+++ b/pyslet/odata2/sqlds.py
@@ -4715,7 +4715,13 @@ class SQLEntityContainer(object):
             if self.closing.is_set():
                 # don't open connections when we are trying to close them
                 return None
-            while not self.module_lock.acquire(False):
+            while True:
+                if (self.dbapi.threadsafety == 0 and
+                        self._lost_connection() is not None):
+                    # the terminated thread can't release this lock
+                    self.module_lock = threading.RLock()
+                if self.module_lock.acquire(False):
+                    break
                 self.cpool_lock.wait(timeout)
                 if self.closing.is_set():
                     return None
@@ -4727,20 +4733,31 @@ class SQLEntityContainer(object):
                     return None
             # we have the module lock
             cpool_item = self.cpool_locked.get(thread_id, None)
-            if cpool_item:
+            if cpool_item is not None and cpool_item.thread is not thread:
+                # left behind by a terminated thread with the same id
+                cpool_item = self._take_over(cpool_item)
+                close_flag = True
+            elif cpool_item:
                 # our thread_id is in the locked table
                 cpool_item.locked += 1
                 cpool_item.last_seen = now
-            while cpool_item is None:
-                if thread_id in self.cpool_unlocked:
+            while cpool_item is None or not cpool_item.locked:
+                if cpool_item is not None:
+                    # taken over from a terminated thread
+                    pass
+                elif thread_id in self.cpool_unlocked:
                     # take the connection that last belonged to us
                     cpool_item = self.cpool_unlocked[thread_id]
                     del self.cpool_unlocked[thread_id]
                     logging.debug("Thread[%i] re-acquiring connection",
                                   thread_id)
+                    # ...or to a terminated thread with the same id
+                    close_flag = (cpool_item.thread is not thread and
+                                  self.dbapi.threadsafety <= 1)
                 elif (self.cpool_idle):
                     # take a connection from an expired thread
                     cpool_item = self.cpool_idle.pop()
+                    close_flag = self.dbapi.threadsafety <= 1
                 elif self.cpool_size < self.cpool_max:
                     # Add a new connection
                     cpool_item = SQLConnection()
@@ -4762,6 +4779,11 @@ class SQLEntityContainer(object):
                         # thread?  Yes: we require it!
                         close_flag = True
                 else:
+                    cpool_item = self._lost_connection()
+                    if cpool_item is not None:
+                        cpool_item = self._take_over(cpool_item)
+                        close_flag = True
+                        continue
                     if self.closing.is_set():
                         # nothing will be released to us now
                         break
@@ -4803,6 +4825,31 @@ class SQLEntityContainer(object):
         self.module_lock.release()
         return None
 
+    def _lost_connection(self):
+        """Returns a connection a terminated thread failed to release
+
+        Returns None if there isn't one, called with the cpool lock."""
+        for cpool_item in dict_values(self.cpool_locked):
+            if not cpool_item.thread.is_alive():
+                return cpool_item
+        return None
+
+    def _take_over(self, lost_item):
+        """Takes back a connection from a terminated thread
+
+        Returns a new connection object, as somebody might still release
+        the old one.  The caller must close the underlying database
+        connection, there may be uncommitted changes.  Called with the
+        cpool lock."""
+        logging.error(
+            "Thread[%i] failed to release database connection "
+            "before terminating", lost_item.thread_id)
+        del self.cpool_locked[lost_item.thread_id]
+        cpool_item = SQLConnection()
+        cpool_item.dbc = lost_item.dbc
+        lost_item.dbc = None
+        return cpool_item
+
     def release_connection(self, release_item):
         thread_id = threading.current_thread().ident
         close_flag = False
-- 
2.43.0


From 714e851046c4b6538e4639e9d0ff71a863f18cc4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:21:26 +0000
Subject: [PATCH 088/126] fix: waiting for an SQL connection must honour the
 timeout

---
 pyslet/odata2/sqlds.py | 47 ++++++++++++++++++++++++++++++------------
 1 file changed, 34 insertions(+), 13 deletions(-)

diff --git a/pyslet/odata2/sqlds.py b/pyslet/odata2/sqlds.py
index 58433e5..6cae3cc 100755
--- a/pyslet/odata2/sqlds.py
+++ b/pyslet/odata2/sqlds.py
@@ -40,6 +40,10 @@ logging = logging.getLogger('pyslet.odata2.sqlds')
 # : the standard timeout while waiting for a database connection, in seconds
 SQL_TIMEOUT = 90
 
+# how often a thread that waits for a connection looks for connections
+# that belong to terminated threads, in seconds
+POOL_INTERVAL = 5
+
 
 class SQLError(Exception):
 
@@ -4708,7 +4712,7 @@ class SQLEntityContainer(object):
         # block on the module for threadsafety==0 case
         thread = threading.current_thread()
         thread_id = thread.ident
-        now = start = time.time()
+        start = time.time()
         cpool_item = None
         close_flag = False
         with self.cpool_lock:
@@ -4722,15 +4726,13 @@ class SQLEntityContainer(object):
                     self.module_lock = threading.RLock()
                 if self.module_lock.acquire(False):
                     break
-                self.cpool_lock.wait(timeout)
-                if self.closing.is_set():
-                    return None
-                now = time.time()
-                if timeout is not None and now > start + timeout:
+                if not self._wait_for_release(start, timeout):
                     logging.warning(
                         "Thread[%i] timed out waiting for the the database "
                         "module lock", thread_id)
                     return None
+                if self.closing.is_set():
+                    return None
             # we have the module lock
             cpool_item = self.cpool_locked.get(thread_id, None)
             if cpool_item is not None and cpool_item.thread is not thread:
@@ -4740,7 +4742,7 @@ class SQLEntityContainer(object):
             elif cpool_item:
                 # our thread_id is in the locked table
                 cpool_item.locked += 1
-                cpool_item.last_seen = now
+                cpool_item.last_seen = start
             while cpool_item is None or not cpool_item.locked:
                 if cpool_item is not None:
                     # taken over from a terminated thread
@@ -4787,16 +4789,14 @@ class SQLEntityContainer(object):
                     if self.closing.is_set():
                         # nothing will be released to us now
                         break
-                    now = time.time()
-                    if timeout is not None and now > start + timeout:
+                    logging.debug(
+                        "Thread[%i] forced to wait for a database connection",
+                        thread_id)
+                    if not self._wait_for_release(start, timeout):
                         logging.warning(
                             "Thread[%i] timed out waiting for a database "
                             "connection", thread_id)
                         break
-                    logging.debug(
-                        "Thread[%i] forced to wait for a database connection",
-                        thread_id)
-                    self.cpool_lock.wait(timeout)
                     logging.debug(
                         "Thread[%i] resuming search for database connection",
                         thread_id)
@@ -4825,6 +4825,27 @@ class SQLEntityContainer(object):
         self.module_lock.release()
         return None
 
+    def _wait_for_release(self, start, timeout):
+        """Waits for a connection to be released
+
+        start
+            The time at which the thread started waiting
+
+        timeout
+            The overall timeout or None
+
+        Returns False if the timeout has already passed, called with the
+        cpool lock.  May return early, nobody notifies us when a thread
+        terminates without releasing its connection."""
+        wait = POOL_INTERVAL
+        if timeout is not None:
+            remaining = start + timeout - time.time()
+            if remaining <= 0:
+                return False
+            wait = min(wait, remaining, timeout)
+        self.cpool_lock.wait(wait)
+        return True
+
     def _lost_connection(self):
         """Returns a connection a terminated thread failed to release
 
-- 
2.43.0


From 04cf24e3f3a4a59e85233b681487a2e45b4edd13 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:21:26 +0000
Subject: [PATCH 089/126] fix: an error on closing an SQL connection must not
 leave others open

---
 pyslet/odata2/sqlds.py | 20 +++++++++++++++-----
 1 file changed, 15 insertions(+), 5 deletions(-)

diff --git a/pyslet/odata2/sqlds.py b/pyslet/odata2/sqlds.py
index 6cae3cc..f30f06b 100755
--- a/pyslet/odata2/sqlds.py
+++ b/pyslet/odata2/sqlds.py
@@ -248,7 +248,7 @@ def retry_decorator(tmethod):
                         self.connection.dbc = None
                         self.connection.writer = None
                         if dbc is not None:
-                            self.container.close_connection(dbc)
+                            self.container._discard_connection(dbc)
                     else:
                         # don't close the connection if that would throw
                         # away the changes of another transaction
@@ -4811,7 +4811,7 @@ class SQLEntityContainer(object):
                 if close_flag and cpool_item.dbc is not None:
                     dbc = cpool_item.dbc
                     cpool_item.dbc = None
-                    self.close_connection(dbc)
+                    self._discard_connection(dbc)
                 if cpool_item.dbc is None:
                     cpool_item.dbc = self.open()
             except Exception:
@@ -4933,7 +4933,7 @@ class SQLEntityContainer(object):
                 "Thread[%i] attempted to unlock un unknown database "
                 "connection: %s", thread_id, repr(release_item))
         if close_flag:
-            self.close_connection(release_item.dbc)
+            self._discard_connection(release_item.dbc)
 
     def connection_stats(self):
         """Return information about the connection pool
@@ -5018,7 +5018,7 @@ class SQLEntityContainer(object):
             self.cpool_lock.notify_all()
         for dbc in to_close:
             if dbc is not None:
-                self.close_connection(dbc)
+                self._discard_connection(dbc)
 
     def open(self):
         """Creates and returns a new connection object.
@@ -5032,6 +5032,16 @@ class SQLEntityContainer(object):
         """Calls the underlying close method."""
         connection.close()
 
+    def _discard_connection(self, connection):
+        """Closes a connection we no longer need
+
+        Closing may fail, e.g., if the connection to the database server
+        has been lost."""
+        try:
+            self.close_connection(connection)
+        except Exception as err:
+            logging.error("Error closing database connection: %s", str(err))
+
     def break_connection(self, connection):
         """Called when closing or cleaning up locked connections.
 
@@ -5128,7 +5138,7 @@ class SQLEntityContainer(object):
                 break
         for dbc in to_close:
             if dbc is not None:
-                self.close_connection(dbc)
+                self._discard_connection(dbc)
 
     def quote_identifier(self, identifier):
         """Given an *identifier* returns a safely quoted form of it.
-- 
2.43.0


From 78e3f29d2a45362647f6ad43dfd05e781856272b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:21:26 +0000
Subject: [PATCH 090/126] fix: the SQL pool cleaner must close connections
 before making room for others

---
 pyslet/odata2/sqlds.py | 19 ++++++++++++-------
 1 file changed, 12 insertions(+), 7 deletions(-)

diff --git a/pyslet/odata2/sqlds.py b/pyslet/odata2/sqlds.py
index f30f06b..f4ccc83 100755
--- a/pyslet/odata2/sqlds.py
+++ b/pyslet/odata2/sqlds.py
@@ -4917,14 +4917,13 @@ class SQLEntityContainer(object):
                 if cpool_item is release_item:
                     bad_item = cpool_item
                     del self.cpool_idle[i]
-                    self.cpool_size -= 1
                     break
             if bad_item is not None:
                 # items in the idle pool are already unlocked
                 logging.error(
                     "Thread[%i] released a database connection from the "
                     "idle pool: closing for safety", thread_id)
-                close_flag = True
+                close_flag = release_item.dbc is not None
             elif self.closing.is_set():
                 # we gave up waiting for this connection
                 close_flag = release_item.dbc is not None
@@ -4934,6 +4933,10 @@ class SQLEntityContainer(object):
                 "connection: %s", thread_id, repr(release_item))
         if close_flag:
             self._discard_connection(release_item.dbc)
+        if bad_item is not None:
+            with self.cpool_lock:
+                self.cpool_size -= 1
+                self.cpool_lock.notify()
 
     def connection_stats(self):
         """Return information about the connection pool
@@ -4983,8 +4986,10 @@ class SQLEntityContainer(object):
                         "Thread[%i] failed to release database connection "
                         "before terminating", cpool_item.thread_id)
                     del self.cpool_locked[cpool_item.thread_id]
-                    self.cpool_size -= 1
                     to_close.append(cpool_item.dbc)
+                    if self.dbapi.threadsafety == 0:
+                        # the terminated thread can't release this lock
+                        self.module_lock = threading.RLock()
             unlocked_list = list(dict_values(self.cpool_unlocked))
             for cpool_item in unlocked_list:
                 if not cpool_item.thread.is_alive():
@@ -5003,7 +5008,6 @@ class SQLEntityContainer(object):
                         "after Thread[%i] timed out",
                         cpool_item.thread_id)
                     del self.cpool_unlocked[cpool_item.thread_id]
-                    self.cpool_size -= 1
                     to_close.append(cpool_item.dbc)
             i = len(self.cpool_idle)
             while i:
@@ -5013,12 +5017,13 @@ class SQLEntityContainer(object):
                     logging.info("pool_cleaner removed idle connection")
                     to_close.append(cpool_item.dbc)
                     del self.cpool_idle[i]
-                    self.cpool_size -= 1
-            # there may be room for new connections
-            self.cpool_lock.notify_all()
         for dbc in to_close:
             if dbc is not None:
                 self._discard_connection(dbc)
+        with self.cpool_lock:
+            # there may be room for new connections now
+            self.cpool_size -= len(to_close)
+            self.cpool_lock.notify_all()
 
     def open(self):
         """Creates and returns a new connection object.
-- 
2.43.0


From e7248cd82a61a52a6e6b434c65949fae4d3a3653 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:21:26 +0000
Subject: [PATCH 091/126] fix: a SQLite connection must not be leaked, nor its
 uncommitted changes

---
 pyslet/odata2/sqlds.py | 21 +++++++++++++++------
 1 file changed, 15 insertions(+), 6 deletions(-)

diff --git a/pyslet/odata2/sqlds.py b/pyslet/odata2/sqlds.py
index f4ccc83..74e91a8 100755
--- a/pyslet/odata2/sqlds.py
+++ b/pyslet/odata2/sqlds.py
@@ -5591,9 +5591,13 @@ class SQLiteEntityContainer(SQLEntityContainer):
             return self.sqlite_memdbc
         dbc = self.dbapi.connect(str(self.file_path), check_same_thread=False,
                                  **self.sqlite_options)
-        c = dbc.cursor()
-        c.execute("PRAGMA foreign_keys = ON")
-        c.close()
+        try:
+            c = dbc.cursor()
+            c.execute("PRAGMA foreign_keys = ON")
+            c.close()
+        except Exception:
+            dbc.close()
+            raise
         return dbc
 
     def break_connection(self, connection):
@@ -5601,12 +5605,17 @@ class SQLiteEntityContainer(SQLEntityContainer):
         connection.interrupt()
 
     def close_connection(self, connection):
-        """Calls the underlying close method."""
+        """Calls the underlying close method.
+
+        An in-memory database stays open but must forget any changes
+        that have not been committed."""
         if self.sqlite_memdbc is None:
             connection.close()
+        else:
+            connection.rollback()
 
-    def close(self):
-        super(SQLiteEntityContainer, self).close()
+    def close(self, timeout=5):
+        super(SQLiteEntityContainer, self).close(timeout)
         # close any in-memory database
         if self.sqlite_memdbc is not None:
             self.sqlite_memdbc.close()
-- 
2.43.0


From 2be15f346b7cf418e1981084aeeda9ee4bd3ea54 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:44:30 +0000
Subject: [PATCH 092/126] fix: no SQL connection must be opened and left behind
 while closing

---
 pyslet/odata2/sqlds.py | 16 +++++++++++++---
 1 file changed, 13 insertions(+), 3 deletions(-)

diff --git a/pyslet/odata2/sqlds.py b/pyslet/odata2/sqlds.py
index 74e91a8..f1f499d 100755
--- a/pyslet/odata2/sqlds.py
+++ b/pyslet/odata2/sqlds.py
@@ -4747,6 +4747,9 @@ class SQLEntityContainer(object):
                 if cpool_item is not None:
                     # taken over from a terminated thread
                     pass
+                elif self.closing.is_set():
+                    # nothing will be released to us now
+                    break
                 elif thread_id in self.cpool_unlocked:
                     # take the connection that last belonged to us
                     cpool_item = self.cpool_unlocked[thread_id]
@@ -4786,9 +4789,6 @@ class SQLEntityContainer(object):
                         cpool_item = self._take_over(cpool_item)
                         close_flag = True
                         continue
-                    if self.closing.is_set():
-                        # nothing will be released to us now
-                        break
                     logging.debug(
                         "Thread[%i] forced to wait for a database connection",
                         thread_id)
@@ -4814,6 +4814,16 @@ class SQLEntityContainer(object):
                     self._discard_connection(dbc)
                 if cpool_item.dbc is None:
                     cpool_item.dbc = self.open()
+                with self.cpool_lock:
+                    abandoned = (self.closing.is_set() and
+                                 self.cpool_locked.get(thread_id) is not
+                                 cpool_item)
+                if abandoned:
+                    # closed without waiting for us to connect
+                    self._discard_connection(cpool_item.dbc)
+                    cpool_item.dbc = None
+                    self.module_lock.release()
+                    return None
             except Exception:
                 # the connection can't be used but someone else may have
                 # more luck
-- 
2.43.0


From 0e3460d6d940b971f32fb552dc9478cc27657b02 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:51:37 +0000
Subject: [PATCH 093/126] fix: a date and time concurrency token must never
 take an earlier value again

---
 pyslet/odata2/csdl.py | 11 ++++++-----
 1 file changed, 6 insertions(+), 5 deletions(-)

diff --git a/pyslet/odata2/csdl.py b/pyslet/odata2/csdl.py
index c5c6ba6..03060a4 100755
--- a/pyslet/odata2/csdl.py
+++ b/pyslet/odata2/csdl.py
@@ -2759,7 +2759,7 @@ class Entity(SortableMixin, TypeInstance):
         3.  Integer values are incremented.
 
         4.  DateTime and DateTimeOffset values are set to the current
-                time in UTC (and nudged by 1s if necessary)
+                time in UTC (and nudged by 1s if necessary, it always increases)
 
         5.  Guid values are set to a new random (type 4) UUID.
 
@@ -2795,11 +2795,12 @@ class Entity(SortableMixin, TypeInstance):
             elif isinstance(t, (DateTimeValue, DateTimeOffsetValue)):
                 old_t = t.value
                 t.set_from_value(iso8601.TimePoint.from_now_utc())
-                if t.value == old_t:
-                    # that was quick, push it 1s into the future
-                    new_time, overflow = t.value.time.offset(seconds=1)
+                if old_t is not None and not t.value > old_t:
+                    # that was quick, push it 1s into the future (never
+                    # go back, an earlier value was used already)
+                    new_time, overflow = old_t.time.offset(seconds=1)
                     t.set_from_value(iso8601.TimePoint(
-                        date=t.value.date.offset(days=overflow),
+                        date=old_t.date.offset(days=overflow),
                         time=new_time))
             elif isinstance(t, GuidValue):
                 old_t = t.value
-- 
2.43.0


From df7ddfb7442be05c56ddfc2ebd06cc95fef53954 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:52:41 +0000
Subject: [PATCH 094/126] fix: concurrency tokens must differ for any two
 values of an entity

---
 pyslet/odata2/csdl.py | 25 ++++++++++++++++---------
 1 file changed, 16 insertions(+), 9 deletions(-)

diff --git a/pyslet/odata2/csdl.py b/pyslet/odata2/csdl.py
index 03060a4..5dcc0e7 100755
--- a/pyslet/odata2/csdl.py
+++ b/pyslet/odata2/csdl.py
@@ -2712,10 +2712,11 @@ class Entity(SortableMixin, TypeInstance):
     def generate_ctoken(self):
         """Returns a hash object representing this entity's value.
 
-        The hash is a SHA256 obtained by concatenating the literal
-        representations of all data properties (strings are UTF-8
-        encoded) except the keys and properties which have Fixed
-        concurrency mode."""
+        The hash is a SHA256 obtained by concatenating the names and
+        literal representations of all data properties that are not NULL
+        (strings are UTF-8 encoded and preceded by their length so that
+        different values are never represented in the same way) except
+        the keys and properties which have Fixed concurrency mode."""
         h = hashlib.sha256()
         key = self.key_dict()
         for p_def in self.type_def.Property:
@@ -2725,24 +2726,30 @@ class Entity(SortableMixin, TypeInstance):
                 continue
             v = self[p_def.name]
             if isinstance(v, Complex):
-                self._complex_ctoken(h, v)
+                self._complex_ctoken(h, v, p_def.name)
             elif not v:
                 continue
             else:
-                h.update(to_text(v).encode('utf-8'))
+                self._update_ctoken(h, p_def.name, v)
         return h
 
-    def _complex_ctoken(self, h, ct):
+    def _update_ctoken(self, h, path, v):
+        data = to_text(v).encode('utf-8')
+        h.update(("%s:%i:" % (path, len(data))).encode('utf-8'))
+        h.update(data)
+
+    def _complex_ctoken(self, h, ct, path):
         for p_def in ct.type_def.Property:
             # complex types can't have properties used as concurrency
             # tokens or keys
             v = ct[p_def.name]
+            v_path = "%s/%s" % (path, p_def.name)
             if isinstance(v, Complex):
-                self._complex_ctoken(h, v)
+                self._complex_ctoken(h, v, v_path)
             elif not v:
                 continue
             else:
-                h.update(to_text(v).encode('utf-8'))
+                self._update_ctoken(h, v_path, v)
 
     @old_method('SetConcurrencyTokens')
     def set_concurrency_tokens(self):
-- 
2.43.0


From 4b812aa0aeee766c282dc33e12b4609477890db8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:56:42 +0000
Subject: [PATCH 095/126] fix: a null concurrency token must not prevent an SQL
 update

---
 pyslet/odata2/sqlds.py | 27 ++++++++++++++-------------
 1 file changed, 14 insertions(+), 13 deletions(-)

diff --git a/pyslet/odata2/sqlds.py b/pyslet/odata2/sqlds.py
index f1f499d..ca99a31 100755
--- a/pyslet/odata2/sqlds.py
+++ b/pyslet/odata2/sqlds.py
@@ -2615,10 +2615,7 @@ class SQLEntityCollection(SQLCollectionBase):
             if updates:
                 query.append(', '.join(updates))
                 query.append(' WHERE ')
-                where = []
-                for cname, cvalue in constraints:
-                    where.append('%s=%s' % (cname, params.add_param(cvalue)))
-                query.append(' AND '.join(where))
+                query.append(self._match_values(constraints, params))
                 query = ''.join(query)
                 logging.info("%s; %s", query, to_text(params.params))
                 transaction.execute(query, params)
@@ -2626,10 +2623,7 @@ class SQLEntityCollection(SQLCollectionBase):
                 # we need to check if this entity really exists
                 query = ['SELECT COUNT(*) FROM ', self.table_name, ' WHERE ']
                 params = self.container.ParamsClass()
-                where = []
-                for cname, cvalue in constraints:
-                    where.append('%s=%s' % (cname, params.add_param(cvalue)))
-                query.append(' AND '.join(where))
+                query.append(self._match_values(constraints, params))
                 query = ''.join(query)
                 logging.info("%s; %s", query, to_text(params.params))
                 transaction.execute(query, params)
@@ -2639,11 +2633,8 @@ class SQLEntityCollection(SQLCollectionBase):
                     query = [
                         'SELECT COUNT(*) FROM ', self.table_name, ' WHERE ']
                     params = self.container.ParamsClass()
-                    where = []
-                    for cname, cvalue in constraints[:key_len]:
-                        where.append(
-                            '%s=%s' % (cname, params.add_param(cvalue)))
-                    query.append(' AND '.join(where))
+                    query.append(
+                        self._match_values(constraints[:key_len], params))
                     query = ''.join(query)
                     logging.info("%s; %s", query, to_text(params.params))
                     transaction.execute(query, params)
@@ -2726,6 +2717,16 @@ class SQLEntityCollection(SQLCollectionBase):
         finally:
             transaction.close()
 
+    def _match_values(self, constraints, params):
+        """Returns the WHERE clause for a list of (name, value) tuples"""
+        where = []
+        for cname, cvalue in constraints:
+            if cvalue is None:
+                where.append('%s IS NULL' % cname)
+            else:
+                where.append('%s=%s' % (cname, params.add_param(cvalue)))
+        return ' AND '.join(where)
+
     def update_link(
             self,
             entity,
-- 
2.43.0


From 28b418e485414b51ca126d8680e55f0a510c6014 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:56:42 +0000
Subject: [PATCH 096/126] fix: a partial update must change the concurrency
 token from the whole entity

---
 pyslet/odata2/csdl.py  | 42 ++++++++++++++++++++++++++++++++++++++++++
 pyslet/odata2/memds.py | 23 +++++++++++++++++++++++
 pyslet/odata2/sqlds.py | 25 +++++++++++++++++++++++++
 3 files changed, 90 insertions(+)

diff --git a/pyslet/odata2/csdl.py b/pyslet/odata2/csdl.py
index 5dcc0e7..ecdc6fa 100755
--- a/pyslet/odata2/csdl.py
+++ b/pyslet/odata2/csdl.py
@@ -2709,6 +2709,48 @@ class Entity(SortableMixin, TypeInstance):
                 etag.append(token)
         return etag
 
+    def is_partial(self):
+        """Returns True if there are concurrency tokens and some data
+        property, perhaps a token, is not selected.
+
+        The tokens identify all the values of an entity so they can't be
+        updated from these values alone."""
+        return self.selected is not None and bool(self.etag_values()) and \
+            not all(self.is_selected(k) for k in self.data_keys())
+
+    def merge_selected(self, e, merge=True):
+        """Updates these complete values from the selected values of *e*
+
+        e
+            A (partial) :py:class:`Entity` from the same entity set,
+            with the same key.
+
+        merge
+            If False then values that are not selected, other than the
+            keys and the concurrency tokens, are set to their defaults.
+
+        Raises :py:class:`ConcurrencyError` if a selected token differs
+        from ours."""
+        tokens = [t.p_def.name for t in self.etag_values()]
+        for k in tokens:
+            if e.is_selected(k) and e[k].value != self[k].value:
+                raise ConcurrencyError(
+                    "%s has been changed" % str(e.get_location()))
+        for k, v in self.data_items():
+            if k in tokens or k in self.entity_set.keys:
+                continue
+            elif e.is_selected(k):
+                self._copy_value(v, e[k])
+            elif not merge:
+                v.set_default_value()
+
+    def _copy_value(self, v, new_value):
+        if isinstance(v, Complex):
+            for k, cv in v.iteritems():
+                self._copy_value(cv, new_value[k])
+        else:
+            v.set_from_value(new_value.value)
+
     def generate_ctoken(self):
         """Returns a hash object representing this entity's value.
 
diff --git a/pyslet/odata2/memds.py b/pyslet/odata2/memds.py
index b56b182..2b778dc 100644
--- a/pyslet/odata2/memds.py
+++ b/pyslet/odata2/memds.py
@@ -173,6 +173,9 @@ class InMemoryEntityStore(object):
         # e is an EntityTypeInstance, we need to convert it to a tuple
         key = e.key()
         with self.container.lock:
+            if check_tokens and e.is_partial():
+                self.update_partial(e, merge)
+                return
             old_value = self.data[key]
             value = list(old_value)
             if check_tokens:
@@ -204,6 +207,26 @@ class InMemoryEntityStore(object):
                 self.data[key] = old_value
             self.container.add_undo(undo)
 
+    def update_partial(self, e, merge):
+        """Updates from an entity with tokens that isn't complete
+
+        Not thread-safe, must only be called if you have acquired the
+        container lock."""
+        current = self.read_entity(e.key())
+        if current is None:
+            raise KeyError(repr(e.key()))
+        current.merge_selected(e, merge)
+        tokens = [t for t in e.etag_values() if e.is_selected(t.p_def.name)]
+        old_tokens = [(t, t.value) for t in tokens]
+        self.update_entity(current)
+
+        def undo():
+            for t, old_value in old_tokens:
+                t.set_from_value(old_value)
+        self.container.add_undo(undo)
+        for t in tokens:
+            t.set_from_value(current[t.p_def.name].value)
+
     def check_concurrency_tokens(self, e, value):
         """Raises ConcurrencyError if e's tokens are not the stored ones
 
diff --git a/pyslet/odata2/sqlds.py b/pyslet/odata2/sqlds.py
index ca99a31..8773ba3 100755
--- a/pyslet/odata2/sqlds.py
+++ b/pyslet/odata2/sqlds.py
@@ -2528,6 +2528,9 @@ class SQLEntityCollection(SQLCollectionBase):
                 "Attempt to update non existent entity: " +
                 str(entity.get_location()))
             fk_values = []
+        if entity.is_partial():
+            self._update_partial(entity, merge)
+            return
         fk_values = []
         fk_mapping = self.container.fk_table[self.entity_set.name]
         transaction = SQLTransaction(self.container, self.connection)
@@ -2727,6 +2730,28 @@ class SQLEntityCollection(SQLCollectionBase):
                 where.append('%s=%s' % (cname, params.add_param(cvalue)))
         return ' AND '.join(where)
 
+    def _update_partial(self, entity, merge):
+        """Updates from an entity with tokens that isn't complete
+
+        The values that are not selected are read first, if they are
+        changed by someone else then we must read them again."""
+        while True:
+            with self.entity_set.open() as collection:
+                current = collection[entity.key()]
+                current.merge_selected(entity, merge)
+            for k, dv in entity.navigation_items():
+                current[k].bindings = list(dv.bindings)
+            try:
+                self.update_entity(current)
+            except edm.ConcurrencyError:
+                continue
+            for k, dv in entity.navigation_items():
+                dv.bindings = current[k].bindings
+            for t in entity.etag_values():
+                if entity.is_selected(t.p_def.name):
+                    t.set_from_value(current[t.p_def.name].value)
+            return
+
     def update_link(
             self,
             entity,
-- 
2.43.0


From 0465eb88e30a9cbc1dc0cec940a0f7eedc40e232 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:00:23 +0000
Subject: [PATCH 097/126] fix: an application cipher must start before and
 after its key comes into effect

---
 pyslet/wsgi.py | 41 +++++++++++++++++++----------------------
 1 file changed, 19 insertions(+), 22 deletions(-)

diff --git a/pyslet/wsgi.py b/pyslet/wsgi.py
index c9ccc3a..c21fecf 100755
--- a/pyslet/wsgi.py
+++ b/pyslet/wsgi.py
@@ -1535,9 +1535,10 @@ class AppCipher(object):
     when (None)
         A fully specified :class:`pyslet.iso8601.TimePoint` at which
         time the key will become active.  If None, the key is active
-        straight away.  Otherwise, the key_set is searched for a key
+        straight away.  Otherwise, the key_set is searched for the key
         that is still active and that key is used when encrypting data
         until the when time, at which point the given key takes over.
+        If the when time has passed already it is ignored.
 
     The object wraps an underlying cipher.  Strings are encrypted using
     the cipher and then encoded using base64.  The output is then
@@ -1567,27 +1568,23 @@ class AppCipher(object):
         self.key_num = key_num
         self.key = key
         self.ciphers = {key_num: self.new_cipher(key)}
-        if when:
-            # we need to find a key that hasn't expired
+        self.old_num = None
+        self.old_key = None
+        self.old_expires = None
+        if when and when.get_unixtime() >= time.time():
+            # we need to find the key that is still in effect, it was
+            # encrypted with ours
             with key_set.open() as keys:
-                t = edm.EDMValue.from_type(edm.SimpleType.DateTime)
-                t.set_from_value(time.time())
-                filter = odata.CommonExpression.from_str(
-                    "Expires gte :t", {'t': t})
-                keys.set_filter(filter)
-                # Only interested in keys that haven't expired
-                old_keys = keys.values()
-                if not old_keys:
-                    raise RuntimeError("AppCipher: no current key")
-                old_key = old_keys[0]
-                self.old_num = old_key['KeyNum'].value
-                self.old_key = self.decrypt(old_key['KeyString'])
-                self.old_expires = when.get_unixtime()
-                self.ciphers[self.old_num] = self.new_cipher(self.old_key)
-        else:
-            self.old_num = None
-            self.old_key = None
-            self.old_expires = None
+                old_keys = [
+                    old_key for old_key in keys.itervalues() if
+                    self._split_data(old_key['KeyString'].value)[0] == key_num]
+            if not old_keys:
+                raise RuntimeError("AppCipher: no current key")
+            old_key = old_keys[0]
+            self.old_num = old_key['KeyNum'].value
+            self.old_key = self.decrypt(old_key['KeyString'].value)
+            self.old_expires = when.get_unixtime()
+            self.ciphers[self.old_num] = self.new_cipher(self.old_key)
 
     def new_cipher(self, key):
         """Returns a new cipher object with the given key
@@ -1684,7 +1681,7 @@ class AppCipher(object):
             e = keys.new_entity()
             e.set_key(self.old_num)
             e['KeyString'].set_from_value(old_key_encrypted)
-            e['Expires'].set_from_value(when)
+            e['Expires'].set_from_value(when.shift_zone(0))
             try:
                 keys.insert_entity(e)
             except edm.ConstraintError:
-- 
2.43.0


From 3cd10ff14a0228935ac828c0361ffcd3babfc4be Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:00:23 +0000
Subject: [PATCH 098/126] fix: a new application key must not be used before
 the old one is stored

---
 pyslet/wsgi.py | 71 +++++++++++++++++++++++++++++---------------------
 1 file changed, 42 insertions(+), 29 deletions(-)

diff --git a/pyslet/wsgi.py b/pyslet/wsgi.py
index c21fecf..7e350d5 100755
--- a/pyslet/wsgi.py
+++ b/pyslet/wsgi.py
@@ -1564,6 +1564,8 @@ class AppCipher(object):
 
     def __init__(self, key_num, key, key_set, when=None):
         self.lock = threading.RLock()
+        # held while the key is being changed
+        self.change_lock = threading.RLock()
         self.key_set = key_set
         self.key_num = key_num
         self.key = key
@@ -1664,31 +1666,42 @@ class AppCipher(object):
         keys that can be in use in the data set simultaneously.
         Eventually you will have to update encrypted data in the data
         store."""
-        with self.lock:
-            self.old_num = self.key_num
-            self.old_key = self.key
-            self.old_expires = when.get_unixtime()
-            # we should already have a cipher for this key
-            self.key_num = key_num
-            self.key = key
-            cipher = self.ciphers[key_num] = self.new_cipher(key)
+        with self.change_lock:
+            old_num = self.key_num
+            old_key = self.key
+            cipher = self.new_cipher(key)
             # we can't use the encrypt method here as we want to force
             # use of the new key
             old_key_encrypted = "%i:%s" % (
                 key_num, force_ascii(base64.b64encode(cipher.encrypt(
-                    self.old_key))))
-        with self.key_set.open() as keys:
-            e = keys.new_entity()
-            e.set_key(self.old_num)
-            e['KeyString'].set_from_value(old_key_encrypted)
-            e['Expires'].set_from_value(when.shift_zone(0))
-            try:
-                keys.insert_entity(e)
-            except edm.ConstraintError:
-                # Presumably this entity already exists, possible race
-                # condition on change_key - load the entity from the old
-                # key number to raise KeyError if not
-                e = keys[self.old_num]
+                    old_key))))
+            with self.key_set.open() as keys:
+                e = keys.new_entity()
+                e.set_key(old_num)
+                e['KeyString'].set_from_value(old_key_encrypted)
+                e['Expires'].set_from_value(when.shift_zone(0))
+                try:
+                    keys.insert_entity(e)
+                except edm.ConstraintError:
+                    # Presumably this entity already exists, possible race
+                    # condition on change_key - load the entity from the old
+                    # key number to raise KeyError if not
+                    e = keys[old_num]
+                    stored_num, stored_key = self._split_data(
+                        e['KeyString'].value)
+                    if stored_num != key_num or \
+                            cipher.decrypt(stored_key) != old_key:
+                        # changed, but not to this key
+                        raise
+            # only now can everyone find the old key
+            with self.lock:
+                self.old_num = old_num
+                self.old_key = old_key
+                self.old_expires = when.get_unixtime()
+                # we should already have a cipher for this key
+                self.key_num = key_num
+                self.key = key
+                self.ciphers[key_num] = cipher
 
     def _get_current_cipher(self):
         if self.old_expires:
@@ -1793,14 +1806,14 @@ class AppCipher(object):
                         raise ValueError
                 else:
                     message = smessage
-            with self.lock:
-                cipher = self._get_cipher(num)
-                if cipher is None:
-                    return ValueError
-                if cipher.hash(salt + message) == hash:
-                    return message
-                else:
-                    raise ValueError
+            # don't wait for the key_set with the lock
+            cipher = self._get_cipher(num)
+            if cipher is None:
+                return ValueError
+            if cipher.hash(salt + message) == hash:
+                return message
+            else:
+                raise ValueError
         except TypeError:
             raise ValueError
 
-- 
2.43.0


From eb86ccdea98e88f3b6c17ac5dd177d82f688b7c3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:00:23 +0000
Subject: [PATCH 099/126] fix: a signature must not be valid for any other
 message

---
 pyslet/wsgi.py | 24 +++++++++++++++++-------
 1 file changed, 17 insertions(+), 7 deletions(-)

diff --git a/pyslet/wsgi.py b/pyslet/wsgi.py
index 7e350d5..ebfe536 100755
--- a/pyslet/wsgi.py
+++ b/pyslet/wsgi.py
@@ -1562,6 +1562,9 @@ class AppCipher(object):
     #: be used for decryption.
     MAX_AGE = 100
 
+    #: the number of bytes of salt in a signature
+    SALT_SIZE = 4
+
     def __init__(self, key_num, key, key_set, when=None):
         self.lock = threading.RLock()
         # held while the key is being changed
@@ -1775,7 +1778,7 @@ class AppCipher(object):
         strings are encoded using UTF-8 before signing."""
         with self.lock:
             num, cipher = self._get_current_cipher()
-            salt = os.urandom(4)
+            salt = os.urandom(self.SALT_SIZE)
             hash = cipher.hash(salt + message)
             return "%i-%s-%s" % (num, force_ascii(binascii.hexlify(salt)),
                                  force_ascii(binascii.hexlify(hash)))
@@ -1798,18 +1801,23 @@ class AppCipher(object):
             num = int(num)
             salt = binascii.unhexlify(salt)
             hash = binascii.unhexlify(hash)
-            if smessage:
+            if len(salt) != self.SALT_SIZE:
+                # part of another message?
+                raise ValueError
+            if smessage is not None:
                 smessage = unescape_data(smessage)
-                if message:
+                if message is not None:
                     # must match exactly!
                     if message != smessage:
                         raise ValueError
                 else:
                     message = smessage
             # don't wait for the key_set with the lock
-            cipher = self._get_cipher(num)
-            if cipher is None:
-                return ValueError
+            try:
+                cipher = self._get_cipher(num)
+            except RuntimeError:
+                # there's no such key
+                raise ValueError
             if cipher.hash(salt + message) == hash:
                 return message
             else:
@@ -1856,8 +1864,10 @@ class AppCipher(object):
             new_pos = signature.find('-', pos)
             if new_pos < 0:
                 result.append(signature[pos:])
-                while len(result) < 4:
+                while len(result) < 3:
                     result.append('')
+                # there's no message
+                result.append(None)
                 return result
             result.append(signature[pos:new_pos])
             pos = new_pos + 1
-- 
2.43.0


From 5f2fb3183c30db52a49f87d60ad228490b94d8f7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:00:23 +0000
Subject: [PATCH 100/126] fix: an AES application cipher must be able to sign

---
 pyslet/wsgi.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/pyslet/wsgi.py b/pyslet/wsgi.py
index ebfe536..19d71c0 100755
--- a/pyslet/wsgi.py
+++ b/pyslet/wsgi.py
@@ -1515,6 +1515,9 @@ class AESCipher(object):
         cipher = AES.new(self.key, AES.MODE_CFB, iv)
         return cipher.decrypt(data[AES.block_size:])
 
+    def hash(self, data):
+        return sha256(data + self.key).digest()
+
 
 class AppCipher(object):
 
-- 
2.43.0


From 6162b8cf0c47e9605a444a566bbedd057590adec Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:09:28 +0000
Subject: [PATCH 101/126] fix: the signature of a link must cover each of its
 parameters

---
 pyslet/wsgi.py | 17 ++++++++++++-----
 1 file changed, 12 insertions(+), 5 deletions(-)

diff --git a/pyslet/wsgi.py b/pyslet/wsgi.py
index 19d71c0..25cd284 100755
--- a/pyslet/wsgi.py
+++ b/pyslet/wsgi.py
@@ -2272,9 +2272,9 @@ class SessionApp(WSGIDataApp):
             # (strength in depth - first line of defence)
             return_path_str = str(return_path)
             s = to_text(context.session)
-            msg = s + return_path_str + context.environ.get(
-                'HTTP_USER_AGENT', '')
-            sig = self.app_cipher.sign(msg.encode('utf-8'))
+            sig = self.app_cipher.sign(self._link_message(
+                s, return_path_str,
+                context.environ.get('HTTP_USER_AGENT', '')))
             query = urlencode(
                 {'return': return_path_str, 's': s, 'sig': sig})
             ctest = URI.from_octets('ctest?' + query).resolve(
@@ -2282,6 +2282,13 @@ class SessionApp(WSGIDataApp):
             return self.redirect_page(context, ctest)
         return page_method(context)
 
+    def _link_message(self, s, return_path, user_agent):
+        """Returns the message to sign, it can only be read in one way"""
+        return force_bytes('ctest?' + urlencode(
+            [('s', s.encode('utf-8')),
+             ('return', return_path.encode('utf-8')),
+             ('ua', user_agent.encode('utf-8'))]))
+
     def ctest(self, context):
         """The cookie test handler
 
@@ -2338,7 +2345,7 @@ class SessionApp(WSGIDataApp):
         ua = context.environ.get('HTTP_USER_AGENT', '')
         try:
             self.app_cipher.check_signature(
-                qsig, (qmsg + return_path + ua).encode('utf-8'))
+                qsig, self._link_message(qmsg, return_path, ua))
             qsession = self.SessionClass(qmsg)
             if qsession.established:
                 raise ValueError
@@ -2465,7 +2472,7 @@ class SessionApp(WSGIDataApp):
         # load the session from the query initially
         try:
             self.app_cipher.check_signature(
-                qsig, (qmsg + return_path + ua).encode('utf-8'))
+                qsig, self._link_message(qmsg, return_path, ua))
             qsession = self.SessionClass(qmsg)
             if qsession.established:
                 raise ValueError
-- 
2.43.0


From bf1ae31be3055b28f9f0a5415947e4f513ed9632 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:09:28 +0000
Subject: [PATCH 102/126] fix: a session with a bad time must raise ValueError

---
 pyslet/wsgi.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/pyslet/wsgi.py b/pyslet/wsgi.py
index 25cd284..5dde9de 100755
--- a/pyslet/wsgi.py
+++ b/pyslet/wsgi.py
@@ -1955,7 +1955,10 @@ class CookieSession(UnicodeMixin):
             if len(fields) >= 3:
                 self.sid = fields[0]
                 self.established = (fields[1] == '1')
-                self.last_seen = iso.TimePoint.from_str(fields[2])
+                try:
+                    self.last_seen = iso.TimePoint.from_str(fields[2])
+                except iso.DateTimeError:
+                    raise ValueError("Bad CookieSession: %s" % src)
             else:
                 raise ValueError("Bad CookieSession: %s" % src)
         else:
-- 
2.43.0


From 9c5f1aca61e33b72eb76fcbb3368a868d57747f8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:09:28 +0000
Subject: [PATCH 103/126] fix: a bad session cookie must be reported and not
 break the request

---
 pyslet/wsgi.py | 10 ++++++----
 1 file changed, 6 insertions(+), 4 deletions(-)

diff --git a/pyslet/wsgi.py b/pyslet/wsgi.py
index 5dde9de..df8e592 100755
--- a/pyslet/wsgi.py
+++ b/pyslet/wsgi.py
@@ -2112,7 +2112,8 @@ class SessionApp(WSGIDataApp):
         if context.session is None:
             cookies = context.get_cookies()
             csrf_match = ""
-            s_signed = cookies.get(self._session_cookie, b'').decode('ascii')
+            s_signed = cookies.get(
+                self._session_cookie, b'').decode('ascii', 'replace')
             self.set_session(context)
             if context.environ['REQUEST_METHOD'].upper() == 'POST':
                 # check the CSRF token
@@ -2148,7 +2149,8 @@ class SessionApp(WSGIDataApp):
         cookie in the browser."""
         context.session = None
         cookies = context.get_cookies()
-        s_signed = cookies.get(self._session_cookie, b'').decode('ascii')
+        s_signed = cookies.get(
+            self._session_cookie, b'').decode('ascii', 'replace')
         if s_signed and self._test_cookie in cookies:
             try:
                 s_msg = self.app_cipher.check_signature(s_signed)
@@ -2361,7 +2363,7 @@ class SessionApp(WSGIDataApp):
             self.clear_session_cookie(context)
             return self.error_page(context, 400)
         cmsg_signed = cookies.get(
-            self._session_cookie, b'MISSING').decode('ascii')
+            self._session_cookie, b'MISSING').decode('ascii', 'replace')
         try:
             cmsg = self.app_cipher.check_signature(cmsg_signed)
             csession = self.SessionClass(cmsg.decode('utf-8'))
@@ -2372,7 +2374,7 @@ class SessionApp(WSGIDataApp):
                            "cookie tampering detected\n"
                            "cookie=%s\nUserAgent: %s",
                            context.environ.get('PATH_INFO', ''),
-                           cmsg, ua)
+                           cmsg_signed, ua)
             self.clear_session_cookie(context)
             return self.error_page(context, 400)
         if csession.sid != qsession.sid or csession.established:
-- 
2.43.0


From 3a5df9b9c33b8c2d3bc370799cdf02d905e093b9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:09:28 +0000
Subject: [PATCH 104/126] fix: a session that was not established in time must
 not be merged

---
 pyslet/wsgi.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/pyslet/wsgi.py b/pyslet/wsgi.py
index df8e592..41e33c3 100755
--- a/pyslet/wsgi.py
+++ b/pyslet/wsgi.py
@@ -2509,8 +2509,9 @@ class SessionApp(WSGIDataApp):
         # old one if the old one was already established
         self.set_session(context)
         # merge qsession into the one found in the older cookie (no need
-        # to establish it)
-        self.merge_session(context, qsession)
+        # to establish it) unless it is too late for that
+        if qsession.age() <= 120:
+            self.merge_session(context, qsession)
         return self.redirect_page(context, return_path)
 
     def cfail_page(self, context):
-- 
2.43.0


From 67ea07cb99f80299fb6a737c1bd7be5810f03f68 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:10:08 +0000
Subject: [PATCH 105/126] fix: a cookie that is not ASCII must not break the
 request

---
 pyslet/wsgi.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/pyslet/wsgi.py b/pyslet/wsgi.py
index 41e33c3..ccedf2d 100755
--- a/pyslet/wsgi.py
+++ b/pyslet/wsgi.py
@@ -474,6 +474,8 @@ class WSGIContext(object):
         if self._cookies is None:
             cookie_values = self.environ.get('HTTP_COOKIE', None)
             if cookie_values is not None:
+                if is_unicode(cookie_values):
+                    cookie_values = cookie_values.encode('iso-8859-1')
                 p = cookie.CookieParser(cookie_values)
                 self._cookies = p.require_cookie_string()
                 for name in self._cookies:
-- 
2.43.0


From c7b716e45aff11f635d162abd5e60182b13efb4b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:59:42 +0000
Subject: [PATCH 106/126] fix: OData feeds had a next page for ever, even after
 the last entity

---
 pyslet/odata2/csdl.py | 9 ++++++---
 1 file changed, 6 insertions(+), 3 deletions(-)

diff --git a/pyslet/odata2/csdl.py b/pyslet/odata2/csdl.py
index ecdc6fa..ac735bd 100755
--- a/pyslet/odata2/csdl.py
+++ b/pyslet/odata2/csdl.py
@@ -3343,11 +3343,13 @@ class EntityCollection(DictionaryLike, PEP8Compatibility):
         Data providers should override this implementation for a more
         efficient implementation.  The default implementation simply
         wraps :py:meth:`itervalues`."""
+        self.nextSkiptoken = None
         if self.top == 0:
             # end of paging
             return
         i = 0
-        self.nextSkiptoken = None
+        # the skiptoken of the next page, if there is one
+        next_skiptoken = None
         try:
             emin = int(self.skiptoken, 16)
         except (TypeError, ValueError):
@@ -3361,7 +3363,7 @@ class EntityCollection(DictionaryLike, PEP8Compatibility):
             if self.top is None or self.top > self.topmax:
                 # may be truncated
                 emax = emin + self.topmax
-                self.nextSkiptoken = "%X" % (emin + self.topmax)
+                next_skiptoken = "%X" % (emin + self.topmax)
             else:
                 # top not None and <= topmax
                 emax = emin + self.top
@@ -3388,7 +3390,8 @@ class EntityCollection(DictionaryLike, PEP8Compatibility):
                         yield e
                         i = i + 1
                     else:
-                        # stop the iteration now
+                        # there are more, stop the iteration now
+                        self.nextSkiptoken = next_skiptoken
                         if set_next:
                             # set the next skiptoken
                             if self.nextSkiptoken is None:
-- 
2.43.0


From 4633eaa9226f31ac096f83997e94450412b101d8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:59:42 +0000
Subject: [PATCH 107/126] fix: reset the next skiptoken and clear skiptoken at
 the end of SQL pages

---
 pyslet/odata2/sqlds.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/pyslet/odata2/sqlds.py b/pyslet/odata2/sqlds.py
index 8773ba3..1c6432a 100755
--- a/pyslet/odata2/sqlds.py
+++ b/pyslet/odata2/sqlds.py
@@ -641,6 +641,7 @@ class SQLCollectionBase(core.EntityCollection):
             return None
 
     def page_generator(self, set_next=False):
+        self.nextSkiptoken = None
         if self.top == 0:
             # end of paging
             return
@@ -686,7 +687,7 @@ class SQLCollectionBase(core.EntityCollection):
                     # no more pages
                     if set_next:
                         self.top = self.skip = 0
-                        self.skipToken = None
+                        self.skiptoken = None
                     break
                 if skip:
                     skip = skip - 1
-- 
2.43.0


From abf9683083cbb152a7701f20466d4623e6b005ad Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:59:42 +0000
Subject: [PATCH 108/126] fix: OData client raised XML errors when an error
 response was not an OData error

---
 pyslet/odata2/client.py | 10 ++++++++--
 1 file changed, 8 insertions(+), 2 deletions(-)

diff --git a/pyslet/odata2/client.py b/pyslet/odata2/client.py
index 770b806..f51a998 100755
--- a/pyslet/odata2/client.py
+++ b/pyslet/odata2/client.py
@@ -108,9 +108,15 @@ class ClientCollection(core.EntityCollection):
         else:
             etype = UnexpectedHTTPResponse
         debug_msg = None
+        doc = None
         if request.res_body:
-            doc = core.Document()
-            doc.read(src=request.res_body)
+            try:
+                doc = core.Document()
+                doc.read(src=request.res_body)
+            except (xml.XMLError, ValueError):
+                # not an OData error
+                doc = None
+        if doc is not None:
             if isinstance(doc.root, core.Error):
                 error_msg = "%s: %s" % (
                     doc.root.Code.get_value(), doc.root.Message.get_value())
-- 
2.43.0


From 71524a70f9b535618028a15e1fd8ae434029f612 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:59:42 +0000
Subject: [PATCH 109/126] fix: OData client sent a Slug of None for streams
 inserted without a key

---
 pyslet/odata2/client.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/pyslet/odata2/client.py b/pyslet/odata2/client.py
index f51a998..f3863cc 100755
--- a/pyslet/odata2/client.py
+++ b/pyslet/odata2/client.py
@@ -383,7 +383,10 @@ class ClientCollection(core.EntityCollection):
             request.set_content_length(sinfo.size)
         if sinfo.modified is not None:
             request.set_last_modified(params.FullDate(src=sinfo.modified))
-        if isinstance(key, tuple):
+        if key is None:
+            # no slug, the server will choose
+            pass
+        elif isinstance(key, tuple):
             # composite key
             request.set_header(
                 "Slug",
-- 
2.43.0


From 7401026e823606217e09e57eabeeeef89fc14b90 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:59:48 +0000
Subject: [PATCH 110/126] fix: OData client deleted whatever entity was linked,
 not the one with the key

---
 pyslet/odata2/client.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/pyslet/odata2/client.py b/pyslet/odata2/client.py
index f3863cc..af57a77 100755
--- a/pyslet/odata2/client.py
+++ b/pyslet/odata2/client.py
@@ -867,7 +867,9 @@ class NavigationCollection(ClientCollection, core.NavigationCollection):
                 str(self.linksURI) + core.ODataURI.format_entity_key(entity),
                 'DELETE')
         else:
-            # danger, how do we know that key really is the right one?
+            # the request does not identify the linked entity, so check
+            # that key really is the right one (raises KeyError if not)
+            self[key]
             request = http.ClientRequest(str(self.linksURI), 'DELETE')
         self.client.process_request(request)
         if request.status == 204:
-- 
2.43.0


From 9763a1359a6a376f35aae39c74597126dece6b55 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:59:48 +0000
Subject: [PATCH 111/126] fix: OData client presented incomplete media streams
 as complete

---
 pyslet/odata2/client.py | 150 ++++++++++++++++++++++------------------
 1 file changed, 81 insertions(+), 69 deletions(-)

diff --git a/pyslet/odata2/client.py b/pyslet/odata2/client.py
index af57a77..37d5f5c 100755
--- a/pyslet/odata2/client.py
+++ b/pyslet/odata2/client.py
@@ -435,98 +435,108 @@ class ClientCollection(core.EntityCollection):
         """Reads a media resource"""
         if not self.is_medialink_collection():
             raise core.ExpectedMediaLinkCollection
-        stream_url = str(self.base_uri) + core.ODataURI.format_key_dict(
-            self.entity_set.get_key_dict(key)) + "/$value"
         if out is None:
-            request = http.ClientRequest(stream_url, 'HEAD')
-        else:
-            request = http.ClientRequest(stream_url, 'GET', res_body=out)
-        request.set_accept("*/*")
-        self.client.process_request(request)
-        if request.status == 200:
+            request = http.ClientRequest(self._get_stream_url(key), 'HEAD')
+            request.set_accept("*/*")
+            self.client.process_request(request)
+            return self._get_sinfo(request, key, request.status)
+        swrapper = EntityStream(self, key)
+        swrapper.start_request()
+        for data in swrapper.data_gen():
+            nbytes = 0
+            while nbytes < len(data):
+                result = out.write(data[nbytes:])
+                if result is None:
+                    raise IOError("Stream blocked on write")
+                nbytes += result
+        return swrapper.sinfo
+
+    def read_stream_close(self, key):
+        """Creates a generator for a media resource."""
+        if not self.is_medialink_collection():
+            raise core.ExpectedMediaLinkCollection
+        swrapper = EntityStream(self, key)
+        swrapper.start_request()
+        return swrapper.sinfo, swrapper.data_gen(close=True)
+
+    def _get_stream_url(self, key):
+        return str(self.base_uri) + core.ODataURI.format_key_dict(
+            self.entity_set.get_key_dict(key)) + "/$value"
+
+    def _get_sinfo(self, request, key, status):
+        """Returns the StreamInfo from the response to *request*"""
+        sinfo = core.StreamInfo()
+        if status == 200:
             # success, read the entity information back from the response
-            sinfo = core.StreamInfo()
             sinfo.type = request.response.get_content_type()
             sinfo.size = request.response.get_content_length()
             sinfo.modified = request.response.get_last_modified()
             sinfo.created = sinfo.modified
             sinfo.md5 = request.response.get_content_md5()
-            return sinfo
-        elif request.status == 404:
-            # sort of success, we return an empty stream
-            sinfo = core.StreamInfo()
+        elif status == 404:
+            # sort of success, we return an empty stream but only if
+            # there is an entity, this will raise KeyError otherwise
+            self[key]
             sinfo.size = 0
-            return sinfo
         else:
+            # unexpected HTTP response
             self.raise_error(request)
-
-    def read_stream_close(self, key):
-        """Creates a generator for a media resource."""
-        if not self.is_medialink_collection():
-            raise core.ExpectedMediaLinkCollection
-        stream_url = str(self.base_uri) + core.ODataURI.format_key_dict(
-            self.entity_set.get_key_dict(key)) + "/$value"
-        swrapper = EntityStream(self)
-        request = http.ClientRequest(stream_url, 'GET', res_body=swrapper)
-        request.set_accept("*/*")
-        swrapper.start_request(request)
-        return swrapper.sinfo, swrapper.data_gen()
+        return sinfo
 
 
 class EntityStream(io.RawIOBase):
 
-    def __init__(self, collection):
+    def __init__(self, collection, key):
         self.collection = collection
-        self.request = None
+        self.key = key
+        self.request = http.ClientRequest(
+            collection._get_stream_url(key), 'GET', res_body=self)
+        self.request.set_accept("*/*")
         self.sinfo = None
         self.data = []
-
-    def start_request(self, request):
-        self.request = request
-        # now loop until we get the first write or until there nothing
-        # to do!
-        self.collection.client.queue_request(self.request)
-        while self.collection.client.thread_task():
-            if self.data:
-                if self.request.response.status == 200:
-                    break
-                else:
-                    # discard data received before the response status
-                    logging.debug("EntityStream discarding data... %i",
-                                  sum(len(x) for x in self.data))
-                    self.data = []
-        if self.request.response.status == 200:
-            self.sinfo = core.StreamInfo()
-            self.sinfo.type = request.response.get_content_type()
-            self.sinfo.size = request.response.get_content_length()
-            self.sinfo.modified = request.response.get_last_modified()
-            self.sinfo.created = self.sinfo.modified
-            self.sinfo.md5 = request.response.get_content_md5()
-        elif self.request.status == 404:
-            # sort of success, we return an empty stream
-            self.sinfo = core.StreamInfo()
-            self.sinfo.size = 0
-        else:
-            # unexpected HTTP response
-            self.collection.raise_error(self.request)
-
-    def data_gen(self):
+        self.reading = True
+
+    def start_request(self):
+        # loop until we get the first write or until there's nothing to
+        # do!
+        client = self.collection.client
+        client.queue_request(self.request)
+        while not self.data and client.thread_task(60):
+            continue
+        self.sinfo = self.collection._get_sinfo(
+            self.request, self.key,
+            self.request.response.status if self.data
+            else self.request.status)
+
+    def data_gen(self, close=False):
         """Generates the data written to the stream.
 
         Rather than call process_request which would spool all the data
         into the stream before returning, we split apart the individual
         calls to handle the request to enable us to yield data as soon
-        as it is available without needing the full stream in memory."""
-        yield_data = (self.request.response.status == 200)
-        while self.data or self.collection.client.thread_task():
-            for chunk in self.data:
-                if chunk:
+        as it is available without needing the full stream in memory.
+
+        If *close* is True the collection is closed with the
+        generator."""
+        try:
+            client = self.collection.client
+            while self.data or client.thread_task(60):
+                data = self.data
+                self.data = []
+                for chunk in data:
                     logging.debug("EntityStream: writing %i bytes", len(chunk))
-                    if yield_data:
-                        yield chunk
+                    yield chunk
+            if self.request.status not in (200, 404):
+                # the stream ended early
+                raise UnexpectedHTTPResponse(
+                    "%s incomplete: %s" % (self.request.url,
+                                           str(self.request.error)))
+        finally:
+            # that's all the data consumed, request is finished
+            self.reading = False
             self.data = []
-        # that's all the data consumed, request is finished
-        self.collection.close()
+            if close:
+                self.collection.close()
 
     def readable(self):
         return False
@@ -540,8 +550,10 @@ class EntityStream(io.RawIOBase):
     def write(self, b):
         if not isinstance(b, bytes):
             raise TypeError("write requires bytes, not %s" % repr(type(b)))
-        if b:
+        if b and self.reading and self.request.response.status == 200:
             logging.debug("EntityStream: reading %i bytes", len(b))
+            # there's no going back from here
+            self.request.max_retries = -1
             self.data.append(b)
         return len(b)
 
-- 
2.43.0


From c822e25940f01dc48b181266897ca6383ecfae22 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:07:46 +0000
Subject: [PATCH 112/126] fix: OData server answered 500 for entities deleted
 during the request

---
 pyslet/odata2/server.py | 9 +++++++++
 1 file changed, 9 insertions(+)

diff --git a/pyslet/odata2/server.py b/pyslet/odata2/server.py
index 9267e10..38f1a00 100755
--- a/pyslet/odata2/server.py
+++ b/pyslet/odata2/server.py
@@ -880,6 +880,15 @@ class Server(app.Server):
             return self.odata_error(
                 request, environ, start_response, "Bad Request",
                 "Resource not found for segment %s" % str(e), 400)
+        except KeyError as e:
+            # the resource was there when we looked it up but it has
+            # gone since, don't hide anything more serious
+            logging.info(
+                "KeyError in OData call: %s",
+                "".join(traceback.format_exception(*sys.exc_info())))
+            return self.odata_error(
+                request, environ, start_response, "Resource not found",
+                "Resource not found: %s" % str(e), 404)
         except edm.NavigationError as e:
             return self.odata_error(
                 request, environ, start_response, "NavigationError", str(e),
-- 
2.43.0


From f3d4345e8866ce98e740affcbc0f73da29c0669e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:31:02 +0000
Subject: [PATCH 113/126] fix: white space in OData property values was
 collapsed by the XML parser

---
 pyslet/odata2/core.py | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/pyslet/odata2/core.py b/pyslet/odata2/core.py
index 9e9793d..8fc7e55 100644
--- a/pyslet/odata2/core.py
+++ b/pyslet/odata2/core.py
@@ -3301,7 +3301,11 @@ class Property(ODataElement):
                     edm.SimpleType.to_str(
                         value.type_code))
             if value:
-                ODataElement.set_value(self, to_text(value))
+                text = to_text(value)
+                if xml.collapse_space(text) != text:
+                    # the space is part of the value
+                    self.set_space("preserve")
+                ODataElement.set_value(self, text)
             else:
                 self.set_attribute((ODATA_METADATA_NAMESPACE, 'null'), "true")
         elif isinstance(value, edm.Complex):
-- 
2.43.0


From 5295d9c05cd20e34af6a39128524dbfda973955f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:31:02 +0000
Subject: [PATCH 114/126] fix: dates in JSON entities were parsed from their
 first digit

---
 pyslet/odata2/core.py | 12 ++++++------
 1 file changed, 6 insertions(+), 6 deletions(-)

diff --git a/pyslet/odata2/core.py b/pyslet/odata2/core.py
index 8fc7e55..afd8751 100644
--- a/pyslet/odata2/core.py
+++ b/pyslet/odata2/core.py
@@ -2834,19 +2834,19 @@ def parse_asp_dot_net_date(src):
     if not (src.startswith("/Date(") and src.endswith(")/")):
         raise ValueError
     ticks = src[6:-2]
-    if '+' in ticks:
+    # the ticks may be negative themselves
+    if '+' in ticks[1:]:
         # split by +
-        ticks = ticks.split('+')
+        ticks = ticks.rsplit('+', 1)
         zdir = 1
-    elif '-' in ticks:
+    elif '-' in ticks[1:]:
         # split by -
-        ticks = ticks.split('-')
+        ticks = ticks.rsplit('-', 1)
         zdir = -1
     else:
+        ticks = (ticks, )
         zdir = 0
     if zdir:
-        if len(ticks) != 2:
-            raise ValueError
         zoffset = int(ticks[1])
     else:
         zoffset = 0
-- 
2.43.0


From a6feecd07647b75479a97aaeeda36c6344886402 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:31:02 +0000
Subject: [PATCH 115/126] fix: OData key predicates were unescaped twice

---
 pyslet/odata2/core.py | 10 ++++++++--
 1 file changed, 8 insertions(+), 2 deletions(-)

diff --git a/pyslet/odata2/core.py b/pyslet/odata2/core.py
index afd8751..11b17bb 100644
--- a/pyslet/odata2/core.py
+++ b/pyslet/odata2/core.py
@@ -2308,6 +2308,12 @@ class ODataURI(PEP8Compatibility):
                     '$%s cannot be used with this form of URI' %
                     SystemQueryOption.to_str(p))
 
+    @staticmethod
+    def _parse_literal(source):
+        # source has already been unescaped, don't do it twice
+        p = Parser(source)
+        return p.require_production_end(p.parse_uri_literal(), "uri literal")
+
     @classmethod
     def split_segment(cls, segment):
         """Splits a string segment into a unicode name and a
@@ -2344,7 +2350,7 @@ class ODataURI(PEP8Compatibility):
             if len(keys) == 0:
                 return name, {}
             elif len(keys) == 1:
-                return name, {keys[0][0]: uri_literal_from_str(keys[0][1])}
+                return name, {keys[0][0]: cls._parse_literal(keys[0][1])}
             else:
                 key_predicate = {}
                 for k in keys:
@@ -2352,7 +2358,7 @@ class ODataURI(PEP8Compatibility):
                         raise ValueError(
                             "unrecognized key predicate: %s" % repr(keys))
                     kname, value = k
-                    kvalue = uri_literal_from_str(value)
+                    kvalue = cls._parse_literal(value)
                     key_predicate[kname] = kvalue
                 return name, key_predicate
         else:
-- 
2.43.0


From ce6b8d8de292c1c85456e230fef08cac99568c22 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:31:02 +0000
Subject: [PATCH 116/126] fix: comparing a NULL property in an OData filter
 raised TypeError

---
 pyslet/odata2/core.py | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/pyslet/odata2/core.py b/pyslet/odata2/core.py
index 11b17bb..95e64a5 100644
--- a/pyslet/odata2/core.py
+++ b/pyslet/odata2/core.py
@@ -752,7 +752,11 @@ class BinaryExpression(CommonExpression):
                 edm.SimpleType.String, edm.SimpleType.DateTime,
                 edm.SimpleType.DateTimeOffset, edm.SimpleType.Guid):
             result = edm.EDMValue.from_type(edm.SimpleType.Boolean)
-            result.set_from_value(relation(lvalue.value, rvalue.value))
+            if lvalue and rvalue:
+                result.set_from_value(relation(lvalue.value, rvalue.value))
+            else:
+                # one of the operands is null => False
+                result.set_from_value(False)
             return result
         elif type_code is None:  # e.g., null lt null
             result = edm.EDMValue.from_type(edm.SimpleType.Boolean)
-- 
2.43.0


From 17e494c8097214bf2db4f661404f4b07ef446230 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:31:02 +0000
Subject: [PATCH 117/126] fix: ordering entities by a property that can be NULL
 raised TypeError

---
 pyslet/odata2/csdl.py | 10 ++++++++--
 1 file changed, 8 insertions(+), 2 deletions(-)

diff --git a/pyslet/odata2/csdl.py b/pyslet/odata2/csdl.py
index ac735bd..3a580f2 100755
--- a/pyslet/odata2/csdl.py
+++ b/pyslet/odata2/csdl.py
@@ -3147,6 +3147,11 @@ class EntityCollection(DictionaryLike, PEP8Compatibility):
         NotImplementedError."""
         raise NotImplementedError("Collection does not support ordering")
 
+    @staticmethod
+    def _null_first(order_key):
+        # None can't be compared with other values in Python 3
+        return (order_key is not None, order_key)
+
     def order_entities(self, entity_iterable):
         """Utility method for data providers.
 
@@ -3167,8 +3172,9 @@ class EntityCollection(DictionaryLike, PEP8Compatibility):
                 elist = list(entity_iterable)
             # we avoid Py3 warnings by doing multiple sorts with a key function
             for rule, ruleDir in reversed(self.orderby):
-                elist.sort(key=lambda x: self.calculate_order_key(
-                    x, rule), reverse=True if ruleDir < 0 else False)
+                elist.sort(key=lambda x: self._null_first(
+                    self.calculate_order_key(x, rule)),
+                    reverse=True if ruleDir < 0 else False)
         if elist:
             for e in elist:
                 yield e
-- 
2.43.0


From baffdd7c1aab61d1a5dbe0e02d37670e0caa9d90 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:31:02 +0000
Subject: [PATCH 118/126] fix: large floating point values were written in a
 form OData can't read

---
 pyslet/odata2/csdl.py | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/pyslet/odata2/csdl.py b/pyslet/odata2/csdl.py
index 3a580f2..b77f3a3 100755
--- a/pyslet/odata2/csdl.py
+++ b/pyslet/odata2/csdl.py
@@ -1591,7 +1591,12 @@ class FloatValue(NumericValue):
     :py:class:`DoubleValue` only differ in the Max value used
     when range checking.
 
-    Values are formatted using Python's default string conversion."""
+    Values are formatted using Python's default string conversion,
+    except that the sign of a positive exponent is omitted because the
+    literal form doesn't allow it."""
+
+    def __unicode__(self):
+        return super(FloatValue, self).__unicode__().replace("e+", "e")
 
     def set_from_value(self, new_value):
         if new_value is None:
-- 
2.43.0


From 3527712fcacae669e9b1e4ebde368fc9d0eb27c9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:31:02 +0000
Subject: [PATCH 119/126] fix: binary literals were parsed to a value that is
 not a byte string

---
 pyslet/odata2/csdl.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pyslet/odata2/csdl.py b/pyslet/odata2/csdl.py
index b77f3a3..29d41ab 100755
--- a/pyslet/odata2/csdl.py
+++ b/pyslet/odata2/csdl.py
@@ -641,7 +641,7 @@ class Parser(xsi.BasicParser):
         output = []
         hex_str = self.parse_hex_digits(1)
         if hex_str is None:
-            return ''
+            return b''
         if len(hex_str) % 2:
             raise ValueError(
                 "Trailing nibble in binary literal: '%s'" % hex_str[-1])
-- 
2.43.0


From b5a8964cd313488c2759251ea3011b553d65b8eb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:31:02 +0000
Subject: [PATCH 120/126] fix: writing an OData property value without a
 content type failed

---
 pyslet/odata2/server.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/pyslet/odata2/server.py b/pyslet/odata2/server.py
index 38f1a00..fca8898 100755
--- a/pyslet/odata2/server.py
+++ b/pyslet/odata2/server.py
@@ -1223,7 +1223,7 @@ class Server(app.Server):
         return [data]
 
     def read_dereferenced_value(self, value, environ):
-        encoding = None
+        encoding = request_type = None
         if "CONTENT_TYPE" in environ:
             request_type = params.MediaType.from_str(environ["CONTENT_TYPE"])
         if value.mtype is None:
@@ -1256,7 +1256,7 @@ class Server(app.Server):
                 "Unable to parse property value from request "
                 "body (found <%s>)" % str(request_type))
         data = messages.WSGIInputWrapper(environ).read()
-        if request_type.type == "text":
+        if request_type is not None and request_type.type == "text":
             try:
                 encoding = request_type['charset'].decode('latin-1')
             except KeyError:
-- 
2.43.0


From 504c00b21683ead2443dd437c0fdc9199f9460ea Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:31:02 +0000
Subject: [PATCH 121/126] fix: OData links listed entities beyond the page at
 invalid locations

---
 pyslet/odata2/server.py | 5 ++---
 1 file changed, 2 insertions(+), 3 deletions(-)

diff --git a/pyslet/odata2/server.py b/pyslet/odata2/server.py
index fca8898..8a6e16e 100755
--- a/pyslet/odata2/server.py
+++ b/pyslet/odata2/server.py
@@ -957,10 +957,9 @@ class Server(app.Server):
                 entities.generate_link_coll_json(request.version)))
         else:
             doc = core.Document(root=core.Links)
-            for e in entities.itervalues():
+            for e in entities.iterpage():
                 child = doc.root.add_child(core.URI)
-                child.set_value(str(self.service_root) + "%s(%s)" %
-                                (e.entity_set.name, repr(e.key())))
+                child.set_value(str(e.get_location()))
             data = str(doc)
         data = data.encode('utf-8')
         response_headers.append(("Content-Type", str(response_type)))
-- 
2.43.0


From cc0efcd82a65fe3c18b73f273daf2b066fd16223 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:31:02 +0000
Subject: [PATCH 122/126] fix: binary literals in SQL skip tokens made the
 server fail

---
 pyslet/odata2/sqlds.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pyslet/odata2/sqlds.py b/pyslet/odata2/sqlds.py
index 1c6432a..cb3d7de 100755
--- a/pyslet/odata2/sqlds.py
+++ b/pyslet/odata2/sqlds.py
@@ -5759,7 +5759,7 @@ class SQLiteEntityContainer(SQLEntityContainer):
         underlying DB API are converted to strings.  Otherwise
         *sql_value* is passed directly to the parent."""
         if isinstance(sql_value, buffer2):
-            result = edm.BinaryValue()
+            result = edm.EDMValue.from_type(edm.SimpleType.Binary)
             result.set_from_value(bytes(sql_value))
             return result
         else:
-- 
2.43.0


From 71edee20ad96714a870c1fe745ed1b23d7ab6c43 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:31:02 +0000
Subject: [PATCH 123/126] fix: SQL skip tokens that were too long lost or
 repeated entities

---
 pyslet/odata2/sqlds.py | 19 +++++++++++++++----
 1 file changed, 15 insertions(+), 4 deletions(-)

diff --git a/pyslet/odata2/sqlds.py b/pyslet/odata2/sqlds.py
index cb3d7de..a17b532 100755
--- a/pyslet/odata2/sqlds.py
+++ b/pyslet/odata2/sqlds.py
@@ -621,8 +621,11 @@ class SQLCollectionBase(core.EntityCollection):
                     order_len + len(self.entity_set.keys) + 1):
                 # the last value must be an integer we add to skip
                 if isinstance(self.skiptoken[-1], edm.Int32Value):
-                    self.skip += self.skiptoken[-1].value
+                    self.skip = (self.skip or 0) + self.skiptoken[-1].value
                     self.skiptoken = self.skiptoken[:-1]
+                    if not self.skiptoken[-1]:
+                        # keys are never NULL, skip from the start
+                        self.skiptoken = None
                 else:
                     raise core.InvalidSystemQueryOption(
                         "skiptoken incompatible with ordering: %s" % skiptoken)
@@ -720,11 +723,19 @@ class SQLCollectionBase(core.EntityCollection):
                         if tokenlen > 512:
                             # ditch this one, copy the previous one and add a
                             # skip
-                            self.nextSkiptoken = list(self.skiptoken)
+                            if self.skiptoken is None:
+                                # from the start, keys are never NULL
+                                self.nextSkiptoken = [
+                                    edm.SimpleValue()
+                                    for v in self.nextSkiptoken]
+                            else:
+                                self.nextSkiptoken = list(self.skiptoken)
                             v = edm.Int32Value()
-                            v.set_from_value(self.topmax)
+                            v.set_from_value((self.skip or 0) + self.topmax)
                             self.nextSkiptoken.append(v)
-                        if set_next:
+                            if set_next:
+                                self.skip = v.value
+                        elif set_next:
                             self.skiptoken = self.nextSkiptoken
                             self.skip = 0
                         break
-- 
2.43.0


From b3377fc5fadb3f38af3fa663d32c7eaa58486571 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:32:43 +0000
Subject: [PATCH 124/126] fix: SQL pages ordered by a property that can be NULL
 lost entities

---
 pyslet/odata2/sqlds.py | 51 ++++++++++++++++++++++++++++++------------
 1 file changed, 37 insertions(+), 14 deletions(-)

diff --git a/pyslet/odata2/sqlds.py b/pyslet/odata2/sqlds.py
index a17b532..c69e3ce 100755
--- a/pyslet/odata2/sqlds.py
+++ b/pyslet/odata2/sqlds.py
@@ -1247,27 +1247,47 @@ class SQLCollectionBase(core.EntityCollection):
                 oname, dir = self.orderNames[i]
             v = self.skiptoken[i]
             op = ">" if dir > 0 else "<"
-            if oname is None:
-                o_expression = self.sql_expression(expression, params, op)
+            # NULL values, which come first in ascending order, can't be
+            # compared using the ordinary operators
+            if oname is not None:
+                # keys are never NULL
+                skip_expression.append(
+                    "(%s %s %s" %
+                    (oname, op, params.add_param(
+                        self.container.prepare_sql_value(v))))
+            elif v:
+                skip_expression.append(
+                    "(%s %s %s" %
+                    (self.sql_expression(expression, params, op), op,
+                     params.add_param(self.container.prepare_sql_value(v))))
+                if dir < 0:
+                    skip_expression.append(
+                        " OR %s IS NULL" %
+                        self.sql_expression(expression, params, '='))
+            elif dir > 0:
+                skip_expression.append(
+                    "(%s IS NOT NULL" %
+                    self.sql_expression(expression, params, '='))
             else:
-                o_expression = oname
-            skip_expression.append(
-                "(%s %s %s" %
-                (o_expression,
-                 op,
-                 params.add_param(
-                     self.container.prepare_sql_value(v))))
+                # nothing comes after NULL
+                skip_expression.append("(0 = 1")
             ket += 1
             i += 1
             if i < len(self.orderNames):
                 # more to come
-                if oname is None:
+                if oname is not None:
+                    o_expression = oname
+                else:
                     # remake the expression
                     o_expression = self.sql_expression(expression, params, '=')
-                skip_expression.append(
-                    " OR (%s = %s AND " %
-                    (o_expression, params.add_param(
-                        self.container.prepare_sql_value(v))))
+                if v:
+                    skip_expression.append(
+                        " OR (%s = %s AND " %
+                        (o_expression, params.add_param(
+                            self.container.prepare_sql_value(v))))
+                else:
+                    skip_expression.append(" OR (%s IS NULL AND " %
+                                           o_expression)
                 ket += 1
                 continue
             else:
@@ -5452,6 +5472,9 @@ class SQLEntityContainer(object):
 
         You may need to override this method to identify the appropriate
         value type."""
+        if sql_value is None:
+            # NULL has no type
+            return edm.SimpleValue()
         return edm.EDMValue.from_value(sql_value)
 
     def prepare_sql_literal(self, value):
-- 
2.43.0


From f41bcc541b768d212cbfe2ea02722fc1a3e512af Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:32:43 +0000
Subject: [PATCH 125/126] fix: AtomPub server sent errors as text that is not
 bytes

---
 pyslet/rfc5023.py | 11 ++++++-----
 1 file changed, 6 insertions(+), 5 deletions(-)

diff --git a/pyslet/rfc5023.py b/pyslet/rfc5023.py
index 3e7dd9c..6545418 100644
--- a/pyslet/rfc5023.py
+++ b/pyslet/rfc5023.py
@@ -319,8 +319,9 @@ class Server(pep8.PEP8Compatibility):
 
     def handle_missing(self, environ, start_response):
         response_headers = []
-        data = "This server supports the Atom Publishing Protocol\r\n"\
-            "For service information see: %s" % str(self.service_root)
+        data = ("This server supports the Atom Publishing Protocol\r\n"
+                "For service information see: %s" %
+                str(self.service_root)).encode('utf-8')
         response_headers.append(("Content-Length", str(len(data))))
         response_headers.append(("Content-Type", 'text/plain'))
         start_response("404 Not found", response_headers)
@@ -333,10 +334,10 @@ class Server(pep8.PEP8Compatibility):
         response_headers = []
         cdata = io.BytesIO()
         if self.debugMode:
-            traceback.print_exception(*sys.exc_info(), file=cdata)
+            cdata.write(traceback.format_exc().encode('utf-8'))
         else:
-            cdata.write("Sorry, there was an internal error "
-                        "while processing this request")
+            cdata.write(b"Sorry, there was an internal error "
+                        b"while processing this request")
         response_headers.append(("Content-Type", 'text/plain'))
         response_headers.append(("Content-Length", str(len(cdata.getvalue()))))
         start_response("%i Unexpected error" % code, response_headers)
-- 
2.43.0


From bde433ea4a1ddd2504f2c13033dd6eeb76e75214 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:38:35 +0000
Subject: [PATCH 126/126] fix: the fraction of a second was lost from date and
 time literals in filters

---
 pyslet/odata2/csdl.py | 13 +++++++++++++
 1 file changed, 13 insertions(+)

diff --git a/pyslet/odata2/csdl.py b/pyslet/odata2/csdl.py
index 29d41ab..79109cb 100755
--- a/pyslet/odata2/csdl.py
+++ b/pyslet/odata2/csdl.py
@@ -1276,6 +1276,13 @@ class ByteValue(NumericValue):
             raise TypeError("Can't set Byte from %s" % str(new_value))
 
 
+def _fraction_digits(second):
+    """Returns the number of digits needed for the fraction of *second*"""
+    if not isinstance(second, float):
+        return 0
+    return len(("%.7f" % second).rstrip('0').partition('.')[2])
+
+
 class DateTimeValue(SimpleValue):
 
     """Represents a simple value of type Edm.DateTime
@@ -1314,6 +1321,8 @@ class DateTimeValue(SimpleValue):
         if self.p_def:
             # check the precision before formatting
             precision = self.p_def.precision
+        else:
+            precision = _fraction_digits(self.value.time.second)
         if precision is None:
             precision = 0
         return self.value.get_calendar_string(ndp=precision, dp=udp)
@@ -1395,6 +1404,8 @@ class DateTimeOffsetValue(SimpleValue):
         if self.p_def:
             # check the precision before formatting
             precision = self.p_def.precision
+        else:
+            precision = _fraction_digits(self.value.time.second)
         if precision is None:
             precision = 0
         result = self.value.get_calendar_string(ndp=precision, dp=udp)
@@ -1463,6 +1474,8 @@ class TimeValue(SimpleValue):
         if self.p_def:
             # check the precision before formatting
             precision = self.p_def.precision
+        else:
+            precision = _fraction_digits(self.value.second)
         if precision is None:
             precision = 0
         return self.value.get_string(ndp=precision, dp=udp)
-- 
2.43.0

