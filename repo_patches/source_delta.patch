From 32b1486722cc6a4848d3175c93cf8fbab083a7af Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:45:23 +0000
Subject: [PATCH 001/114] fix: let the upper layer defer the ACK when
 processing a 2xx to a late offer INVITE

The UA sets t.uack from within the response callback, however by that time
the ACK has been sent and the transaction is gone, so that late offer calls
got an ACK without an answer followed by a crash. Failure responses are
always acknowledged right away.
---
 sippy/SipTransactionManager.py | 23 ++++++++++++++++-------
 1 file changed, 16 insertions(+), 7 deletions(-)

diff --git a/sippy/SipTransactionManager.py b/sippy/SipTransactionManager.py
index 7f520b4..f4ff867 100644
--- a/sippy/SipTransactionManager.py
+++ b/sippy/SipTransactionManager.py
@@ -444,6 +444,7 @@ class SipTransactionManager(object):
             t.r408 = msg.genResponse(408, 'Request Timeout')
         t.teB = Timeout(self.timerB, 32.0, 1, t)
         t.teC = None
+        t.teG = None
         t.state = TRYING
         self.tclient[t.tid] = t
         self.transmitData(t.userv, t.data, t.address)
@@ -530,16 +531,17 @@ class SipTransactionManager(object):
                         t.ack.getHFBody('via').genBranch()
                     if rAddr == None:
                         rAddr = (t.address, t.userv.transport)
-                    if not t.uack:
+                    t.ack_rAddr = rAddr
+                    t.ack_checksum = checksum
+                    if fcode >= 200 and fcode < 300:
+                        # Upper layer decides on when the ACK to the positive
+                        # response is to be sent by setting t.uack in the resp_cb
+                        t.state = UACK
+                        self.l1rcache[checksum] = SipTMRetransmitO()
+                    else:
                         self.transmitMsg(t.userv, t.ack, rAddr[0], checksum, t.compact)
                         if t.req_out_cb != None:
                             t.req_out_cb(t.ack)
-                    else:
-                        t.state = UACK
-                        t.ack_rAddr = rAddr
-                        t.ack_checksum = checksum
-                        self.l1rcache[checksum] = SipTMRetransmitO()
-                        t.teG = Timeout(self.timerG, 64, 1, t)
                 else:
                     self.l1rcache[checksum] = SipTMRetransmitO()
                 if t.resp_cb != None:
@@ -548,6 +550,13 @@ class SipTransactionManager(object):
                     else:
                         t.resp_cb(msg, t)
                 if t.state == UACK:
+                    if t.tid == None:
+                        # ACK has been sent by the upper layer already
+                        return
+                    if t.uack:
+                        t.teG = Timeout(self.timerG, 64, 1, t)
+                    else:
+                        self.sendACK(t)
                     return
                 del self.tclient[t.tid]
                 t.cleanup()
-- 
2.43.0


From 212c1ffa3acd13836900c680b67abcb4579866b6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:45:34 +0000
Subject: [PATCH 002/114] fix: copy the route set of the INVITE into ACK for
 non-2xx responses

RFC 3261 17.1.1.3 demands it; ACK for a failure otherwise cannot get past a
loose routing proxy that the INVITE has been routed through.
---
 sippy/SipRequest.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/sippy/SipRequest.py b/sippy/SipRequest.py
index 8657bc9..1fb1d50 100644
--- a/sippy/SipRequest.py
+++ b/sippy/SipRequest.py
@@ -137,6 +137,7 @@ class SipRequest(SipMsg):
                           fr0m = self.getHFBCopy('from'), to = to, \
                           via = self.getHFBCopy('via'), callid = self.getHFBCopy('call-id'), \
                           cseq = self.getHFBody('cseq').getCSeqNum(), maxforwards = maxforward, \
+                          routes = self.getHFBCopys('route'), target = self.getTarget(), \
                           user_agent = self.user_agent)
 
     def genCANCEL(self):
-- 
2.43.0


From 11be925c9cae8e57ff966b5e4d48920db306478c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:49:20 +0000
Subject: [PATCH 003/114] fix: keep extra headers (Reason) of a CANCEL deferred
 until provisional response

---
 sippy/SipTransactionManager.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/sippy/SipTransactionManager.py b/sippy/SipTransactionManager.py
index f4ff867..d1a5408 100644
--- a/sippy/SipTransactionManager.py
+++ b/sippy/SipTransactionManager.py
@@ -455,11 +455,11 @@ class SipTransactionManager(object):
     def cancelTransaction(self, t, extra_headers = None):
         # If we got at least one provisional reply then (state == RINGING)
         # then start CANCEL transaction, otherwise deffer it
+        if extra_headers is not None and t.cancel is not None:
+            t.cancel.appendHeaders(extra_headers)
         if t.state != RINGING:
             t.cancelPending = True
         else:
-            if extra_headers is not None:
-                t.cancel.appendHeaders(extra_headers)
             self.newTransaction(t.cancel, userv = t.userv)
 
     def incomingResponse(self, msg, t, checksum):
-- 
2.43.0


From 07fd3006e95befe0da762e198e0936b37e137944 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:09:09 +0000
Subject: [PATCH 004/114] fix: don't report the end of a call leg twice when
 it's disconnected again

---
 sippy/UA.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/sippy/UA.py b/sippy/UA.py
index 25fc904..1a623d3 100644
--- a/sippy/UA.py
+++ b/sippy/UA.py
@@ -246,6 +246,10 @@ class UA(object):
         self.emitPendingEvents()
 
     def disconnect(self, rtime = None, origin = None):
+        if isinstance(self.state, (self.UacStateCancelling, self.UaStateFailed, \
+          self.UaStateDisconnected, self.UaStateDead)):
+            # The call leg is already over and the owner has been told
+            return
         if rtime == None:
             rtime = MonoTime()
         self.equeue.append(CCEventDisconnect(rtime = rtime, origin = origin))
-- 
2.43.0


From 438b2bd7bfb0374acd93e7518610a134a8e6b5ce Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:09:09 +0000
Subject: [PATCH 005/114] fix: stop call setup timers when an incoming call is
 cancelled

---
 sippy/UasStateGeneric.py     | 5 +++++
 sippy/UasStateProgressing.py | 2 ++
 sippy/UasStateTrying.py      | 5 -----
 3 files changed, 7 insertions(+), 5 deletions(-)

diff --git a/sippy/UasStateGeneric.py b/sippy/UasStateGeneric.py
index 9e6ebc3..0e32ba4 100644
--- a/sippy/UasStateGeneric.py
+++ b/sippy/UasStateGeneric.py
@@ -77,3 +77,8 @@ class UasStateGeneric(UaStateGeneric):
         if self.ua.expire_timer is not None:
             self.ua.expire_timer.cancel()
         self.ua.expire_timer = None
+
+    def _cancelNoProgressTimer(self):
+        if self.ua.no_progress_timer is not None:
+            self.ua.no_progress_timer.cancel()
+            self.ua.no_progress_timer = None
diff --git a/sippy/UasStateProgressing.py b/sippy/UasStateProgressing.py
index bb87150..23a2bf8 100644
--- a/sippy/UasStateProgressing.py
+++ b/sippy/UasStateProgressing.py
@@ -79,6 +79,8 @@ class UasStateProgressing(UasStateGeneric):
                 event.reason_rfc3326 = req.getHFBody('reason')
             except:
                 pass
+        self._cancelExpireTimer()
+        self._cancelNoProgressTimer()
         self.ua.disconnect_ts = rtime
         self.ua.changeState((self.ua.UaStateDisconnected, self.ua.disc_cbs, rtime, self.ua.origin))
         self.ua.emitEvent(event)
diff --git a/sippy/UasStateTrying.py b/sippy/UasStateTrying.py
index b1e92fb..93ae9d9 100644
--- a/sippy/UasStateTrying.py
+++ b/sippy/UasStateTrying.py
@@ -32,11 +32,6 @@ from sippy.Time.Timeout import TimeoutAbsMono
 class UasStateTrying(UasStateProgressing):
     sname = 'Trying(UAS)'
 
-    def _cancelNoProgressTimer(self):
-        if self.ua.no_progress_timer is not None:
-            self.ua.no_progress_timer.cancel()
-            self.ua.no_progress_timer = None
-
     def _recvEventRing(self, event, eh):
         scode = event.getData()
         if scode is not None and scode[0] == 100:
-- 
2.43.0


From 9a4691ef6a00419bafc27cefd1e28e96e5e59b27 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:09:09 +0000
Subject: [PATCH 006/114] fix: don't break the dialog on provisional or
 redirect answer to a re-INVITE

---
 sippy/UasStateUpdating.py | 13 +++++++++++--
 1 file changed, 11 insertions(+), 2 deletions(-)

diff --git a/sippy/UasStateUpdating.py b/sippy/UasStateUpdating.py
index c2af2bc..9340e2f 100644
--- a/sippy/UasStateUpdating.py
+++ b/sippy/UasStateUpdating.py
@@ -58,6 +58,15 @@ class UasStateUpdating(UasStateGeneric):
       'REFER': _recvRequestRefer,
     }
 
+    def _recvEventRing(self, event, eh):
+        super()._recvEventRing(event, eh)
+        return None
+
+    def _recvEventRedirect(self, event, eh):
+        self.ua.rSDP = None
+        super()._recvEventRedirect(event, eh)
+        return (self.ua.UaStateConnected,)
+
     def _recvEventConnect(self, event, eh):
         cdata = self._getConnectData(event)
         if cdata is None:
@@ -81,9 +90,9 @@ class UasStateUpdating(UasStateGeneric):
         return (self.ua.UaStateDisconnected, self.ua.disc_cbs, event.rtime, event.origin)
 
     recv_event_handlers = {
-      CCEventRing: UasStateGeneric._recvEventRing,
+      CCEventRing: _recvEventRing,
       CCEventConnect: _recvEventConnect,
-      CCEventRedirect: UasStateGeneric._recvEventRedirect,
+      CCEventRedirect: _recvEventRedirect,
       CCEventFail: _recvEventFail,
       CCEventDisconnect: _recvEventDisconnect,
     }
-- 
2.43.0


From 0204af5dcf474b580d575c95b665b5fa93f5a873 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:09:09 +0000
Subject: [PATCH 007/114] fix: don't answer authentication challenges once the
 call leg has been ended

---
 sippy/UA.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/sippy/UA.py b/sippy/UA.py
index 1a623d3..b6a6fa5 100644
--- a/sippy/UA.py
+++ b/sippy/UA.py
@@ -219,7 +219,8 @@ class UA(object):
         self.update_ua(resp)
         code, reason = resp.getSCode()
         cseq, method = resp.getHFBody('cseq').getCSeq()
-        if method == 'INVITE' and not self.pass_auth and cseq in self.reqs:
+        if method == 'INVITE' and not self.pass_auth and cseq in self.reqs and \
+          isinstance(self.state, (self.UacStateTrying, self.UacStateUpdating)):
             if code == 401 and self.processChallenge(resp, cseq, \
               'www-authenticate', 'authorization', tr.req_extra_headers):
                 return None
-- 
2.43.0


From 1b5b1ca59c4610b47023e165ecc1b16e8bb17916 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:09:09 +0000
Subject: [PATCH 008/114] fix: handle absence of SDP on either side of a
 session update

---
 sippy/UaStateConnected.py | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/sippy/UaStateConnected.py b/sippy/UaStateConnected.py
index 30697fb..8c8fcfb 100644
--- a/sippy/UaStateConnected.py
+++ b/sippy/UaStateConnected.py
@@ -66,7 +66,7 @@ class UaStateConnected(UaStateGeneric):
         self.ua.uasResp = req.genResponse(100, 'Trying', server = self.ua.local_ua)
         self.ua.global_config['_sip_tm'].sendResponse(self.ua.uasResp)
         body = req.getBody()
-        if body is None:
+        if body is None and self.ua.rSDP is not None:
             # Some brain-damaged stacks use body-less re-INVITE as a means
             # for putting session on hold. Quick and dirty hack to make this
             # scenario working.
@@ -74,7 +74,7 @@ class UaStateConnected(UaStateGeneric):
             body.parse()
             for sect in body.content.sections:
                 sect.c_header.addr = '0.0.0.0'
-        elif str(self.ua.rSDP) == str(body):
+        elif body is not None and self.ua.lSDP is not None and str(self.ua.rSDP) == str(body):
             self.ua.sendUasResponse(200, 'OK', self.ua.lSDP, (self.ua.lContact,))
             return None
         event = CCEventUpdate(body, rtime = req.rtime, origin = self.ua.origin)
@@ -184,7 +184,8 @@ class UaStateConnected(UaStateGeneric):
     def _recvEventUpdate(self, event, eh):
         body = event.getData()
         fake_laddr = (('127.0.0.1', None), None)
-        if self.ua.lSDP.localStr(fake_laddr) == body.localStr(fake_laddr):
+        if self.ua.lSDP is not None and body is not None and \
+          self.ua.lSDP.localStr(fake_laddr) == body.localStr(fake_laddr):
             if self.ua.rSDP is not None:
                 self.ua.equeue.append(CCEventConnect((200, 'OK', self.ua.rSDP.getCopy()), \
                     rtime = event.rtime, origin = event.origin))
-- 
2.43.0


From c79678d9eca9d37a531d2744621598d3025966cd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:09:09 +0000
Subject: [PATCH 009/114] fix: pass through 407 challenges to an originating
 leg with pass_auth

---
 sippy/UacStateTrying.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/sippy/UacStateTrying.py b/sippy/UacStateTrying.py
index 538b2b5..477839e 100644
--- a/sippy/UacStateTrying.py
+++ b/sippy/UacStateTrying.py
@@ -128,7 +128,7 @@ class UacStateTrying(UaStateGeneric):
                 if code == 401 and resp.countHFs('www-authenticate') != 0:
                     event.challenges = [x.getCopy() for x in resp.getHFs('www-authenticate')]
                 elif code == 407 and resp.countHFs('proxy-authenticate') != 0:
-                    event.challenges = [x.getCopy() for x in resp.getHF('proxy-authenticate')]
+                    event.challenges = [x.getCopy() for x in resp.getHFs('proxy-authenticate')]
         try:
             event.reason_rfc3326 = resp.getHFBody('reason')
         except:
-- 
2.43.0


From 61b30a701151a42c564f50372dc5fdd0349f0694 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:09:25 +0000
Subject: [PATCH 010/114] fix: wait for the final answer to REFER before
 sending BYE

---
 sippy/UaStateConnected.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/sippy/UaStateConnected.py b/sippy/UaStateConnected.py
index 8c8fcfb..1d46dc6 100644
--- a/sippy/UaStateConnected.py
+++ b/sippy/UaStateConnected.py
@@ -308,5 +308,7 @@ class UaStateConnected(UaStateGeneric):
             self.ua.expire_timer = None
 
     def rComplete(self, resp):
+        if resp.getSCode()[0] < 200:
+            return
         req = self.ua.genRequest('BYE')
         self.ua.newTransaction(req)
-- 
2.43.0


From 931989b8dabcbd0a46007062fd6d564b6f7fbd43 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:09:25 +0000
Subject: [PATCH 011/114] fix: stop the setup timer when a call attempt fails
 on bad SDP

---
 sippy/UacStateTrying.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/sippy/UacStateTrying.py b/sippy/UacStateTrying.py
index 477839e..b86385e 100644
--- a/sippy/UacStateTrying.py
+++ b/sippy/UacStateTrying.py
@@ -193,6 +193,9 @@ class UacStateTrying(UaStateGeneric):
             event = CCEventFail(scode, rtime = resp.rtime, origin = self.ua.origin)
             event.reason_rfc3326 = ex.getReason()
             code = resp.getSCode()[0]
+            if self.ua.expire_timer != None:
+                self.ua.expire_timer.cancel()
+                self.ua.expire_timer = None
             if code < 200:
                 self.ua.global_config['_sip_tm'].cancelTransaction(self.ua.tr,
                   extra_headers = event.getExtraHeaders())
-- 
2.43.0


From 8789875b0e9824439929885a5d6411db09e920ac Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:10:28 +0000
Subject: [PATCH 012/114] fix: answer authentication challenge to a keepalive
 re-INVITE, don't accumulate requests

---
 sippy/UaStateConnected.py | 32 ++++++++++++++++++++------------
 1 file changed, 20 insertions(+), 12 deletions(-)

diff --git a/sippy/UaStateConnected.py b/sippy/UaStateConnected.py
index 1d46dc6..63b542e 100644
--- a/sippy/UaStateConnected.py
+++ b/sippy/UaStateConnected.py
@@ -263,23 +263,31 @@ class UaStateConnected(UaStateGeneric):
         self.triedauth = False
         self.ka_tr = self.ua.newTransaction(req, resp_cb = self.keepAliveResp)
 
+    def keepAliveAuth(self, resp, ch_hfname):
+        if self.ua.username == None or self.ua.password == None or self.triedauth:
+            return False
+        for challenge in resp.getHFBodys(ch_hfname):
+            if self.ua.auth_enalgs is not None and challenge.algorithm not in self.ua.auth_enalgs:
+                continue
+            supported, qop = challenge.supportedAlgorithm()
+            if supported:
+                break
+        else:
+            return False
+        req = self.ua.genRequest('INVITE', self.ua.lSDP, (challenge, qop))
+        self.ka_tr = self.ua.newTransaction(req, resp_cb = self.keepAliveResp)
+        self.triedauth = True
+        return True
+
     def keepAliveResp(self, resp):
         if self.ua.state != self:
             return
         code, reason = resp.getSCode()
-        if code == 401 and resp.countHFs('www-authenticate') != 0 and \
-          self.ua.username != None and self.ua.password != None and not self.triedauth:
-            challenge = resp.getHFBody('www-authenticate')
-            req = self.ua.genRequest('INVITE', self.ua.lSDP, challenge)
-            self.ka_tr = self.ua.newTransaction(req, resp_cb = self.keepAliveResp)
-            self.triedauth = True
+        if code >= 200:
+            self.ua.reqs.pop(resp.getHFBody('cseq').getCSeqNum(), None)
+        if code == 401 and self.keepAliveAuth(resp, 'www-authenticate'):
             return
-        if code == 407 and resp.countHFs('proxy-authenticate') != 0 and \
-          self.ua.username != None and self.ua.password != None and not self.triedauth:
-            challenge = resp.getHFBody('proxy-authenticate')
-            req = self.ua.genRequest('INVITE', self.ua.lSDP, challenge)
-            self.ka_tr = self.ua.newTransaction(req, resp_cb = self.keepAliveResp)
-            self.triedauth = True
+        if code == 407 and self.keepAliveAuth(resp, 'proxy-authenticate'):
             return
         if code < 200:
             return
-- 
2.43.0


From 60bf85bd1535e1e82a6e62cf3d21996a526eb7e9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:10:28 +0000
Subject: [PATCH 013/114] fix: keep Max-Forwards of the request when repeating
 it with credentials

---
 sippy/UA.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/sippy/UA.py b/sippy/UA.py
index b6a6fa5..d6a89ec 100644
--- a/sippy/UA.py
+++ b/sippy/UA.py
@@ -208,7 +208,9 @@ class UA(object):
                 break
         else:
             return False
-        req = self.genRequest('INVITE', self.lSDP, (challenge, qop), extra_headers = extra_headers)
+        max_forwards = self.reqs[cseq].getHFBody('max-forwards').getNum()
+        req = self.genRequest('INVITE', self.lSDP, (challenge, qop), extra_headers = extra_headers, \
+          max_forwards = max_forwards)
         self.newUacTransaction(req, req_extra_headers = extra_headers)
         del self.reqs[cseq]
         return True
-- 
2.43.0


From dbf9e6948bc7b71e278261779f9547a9202bfb01 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:40:43 +0000
Subject: [PATCH 014/114] fix: hang up if a call attempt cancelled because of
 bad SDP gets answered

---
 sippy/UacStateTrying.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/sippy/UacStateTrying.py b/sippy/UacStateTrying.py
index b86385e..d230d14 100644
--- a/sippy/UacStateTrying.py
+++ b/sippy/UacStateTrying.py
@@ -203,4 +203,6 @@ class UacStateTrying(UaStateGeneric):
                 self.genBYE()
             self.ua.equeue.append(event)
             self.ua.disconnect_ts = resp.rtime
-            return (self.ua.UaStateFailed, self.ua.fail_cbs, resp.rtime, self.ua.origin, ex.code)
+            # When the attempt is still pending its final answer needs to be waited for
+            newstate = self.ua.UacStateCancelling if code < 200 else self.ua.UaStateFailed
+            return (newstate, self.ua.fail_cbs, resp.rtime, self.ua.origin, ex.code)
-- 
2.43.0


From adcd04f6fb209a4e2d8757b2e9a1efb195758955 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:40:43 +0000
Subject: [PATCH 015/114] fix: release the call leg when SDP of an incoming
 INVITE is unacceptable

---
 sippy/UasStateIdle.py | 12 ++++++++++--
 1 file changed, 10 insertions(+), 2 deletions(-)

diff --git a/sippy/UasStateIdle.py b/sippy/UasStateIdle.py
index 96be6cf..9074cd7 100644
--- a/sippy/UasStateIdle.py
+++ b/sippy/UasStateIdle.py
@@ -30,7 +30,8 @@ from sippy.Time.Timeout import TimeoutAbsMono
 from sippy.SipAddress import SipAddress
 from sippy.SipRoute import SipRoute
 from sippy.UaStateGeneric import UaStateGeneric
-from sippy.CCEvents import CCEventTry
+from sippy.CCEvents import CCEventTry, CCEventFail
+from sippy.Exceptions.SdpParseError import SdpHandlingErrors
 from sippy.SipContact import SipContact
 from sippy.SipCSeq import SipCSeq
 from sippy.SipFrom import SipFrom
@@ -101,7 +102,14 @@ class UasStateIdle(UaStateGeneric):
             self.ua.expire_timer = TimeoutAbsMono(self.ua.expires, self.ua.expire_mtime)
         if body is not None:
             if self.ua.on_remote_sdp_change != None:
-                body = self.ua.on_remote_sdp_change(body, partial(self.ua.delayed_remote_sdp_update, event))
+                try:
+                    body = self.ua.on_remote_sdp_change(body, partial(self.ua.delayed_remote_sdp_update, event))
+                except SdpHandlingErrors as ex:
+                    event = CCEventFail((ex.code, ex.msg), rtime = req.rtime, origin = self.ua.origin)
+                    event.reason_rfc3326 = ex.getReason()
+                    self.ua.setup_ts = req.rtime
+                    self.ua.changeState((self.ua.UasStateTrying,))
+                    return self.ua.state.recvEvent(event)
                 if body is None:
                     self.ua.setup_ts = req.rtime
                     return (self.ua.UasStateTrying,)
-- 
2.43.0


From d5a89689259e0286bb74d8c88138bc84a77a197e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:40:43 +0000
Subject: [PATCH 016/114] fix: fail the call attempt cleanly when its SDP is
 unacceptable

---
 sippy/UacStateIdle.py | 10 +++++++++-
 1 file changed, 9 insertions(+), 1 deletion(-)

diff --git a/sippy/UacStateIdle.py b/sippy/UacStateIdle.py
index a091ac2..3360634 100644
--- a/sippy/UacStateIdle.py
+++ b/sippy/UacStateIdle.py
@@ -38,6 +38,7 @@ from sippy.SipFrom import SipFrom
 from sippy.SipCallId import SipCallId
 from sippy.SipCSeq import SipCSeq
 from sippy.SipHeader import SipHeader
+from sippy.Exceptions.SdpParseError import SdpHandlingErrors
 
 class UacStateIdle(UaStateGeneric):
     sname = 'Idle(UAC)'
@@ -50,7 +51,14 @@ class UacStateIdle(UaStateGeneric):
             cId, callingID, calledID, body, auth, callingName = event.getData()
             if body is not None:
                 if self.ua.on_local_sdp_change != None and body.needs_update:
-                    self.ua.on_local_sdp_change(body, partial(self.ua.delayed_local_sdp_update, event))
+                    try:
+                        self.ua.on_local_sdp_change(body, partial(self.ua.delayed_local_sdp_update, event))
+                    except SdpHandlingErrors as ex:
+                        event = CCEventFail((ex.code, ex.msg), rtime = event.rtime, origin = self.ua.origin)
+                        event.reason_rfc3326 = ex.getReason()
+                        self.ua.equeue.append(event)
+                        self.ua.disconnect_ts = event.rtime
+                        return (self.ua.UaStateFailed, self.ua.fail_cbs, event.rtime, self.ua.origin, ex.code)
                     return None
             else:
                 self.ua.late_media = True
-- 
2.43.0


From 6dbdd0c893766bac270d2d9640996b02efa7d059 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:40:43 +0000
Subject: [PATCH 017/114] fix: ignore late outcome of SDP handling when the
 call leg is already over

---
 sippy/UA.py | 13 ++++++++++---
 1 file changed, 10 insertions(+), 3 deletions(-)

diff --git a/sippy/UA.py b/sippy/UA.py
index d6a89ec..0c3deb5 100644
--- a/sippy/UA.py
+++ b/sippy/UA.py
@@ -249,9 +249,8 @@ class UA(object):
         self.emitPendingEvents()
 
     def disconnect(self, rtime = None, origin = None):
-        if isinstance(self.state, (self.UacStateCancelling, self.UaStateFailed, \
-          self.UaStateDisconnected, self.UaStateDead)):
-            # The call leg is already over and the owner has been told
+        if self.isOver():
+            # The owner has been told already
             return
         if rtime == None:
             rtime = MonoTime()
@@ -385,6 +384,10 @@ class UA(object):
             return self.state.dead
         return False
 
+    def isOver(self):
+        return isinstance(self.state, (self.UacStateCancelling, self.UaStateFailed, \
+          self.UaStateDisconnected, self.UaStateDead))
+
     def isConnected(self):
         if self.state != None:
             return self.state.connected
@@ -418,6 +421,8 @@ class UA(object):
         return tuple(rval)
 
     def delayed_remote_sdp_update(self, event, remote_sdp_body, ex=None):
+        if self.isOver():
+            return
         if ex is not None:
             if not isinstance(ex, SdpHandlingErrors): raise ex
             event = CCEventFail((ex.code, ex.msg))
@@ -430,6 +435,8 @@ class UA(object):
             self.recvEvent(event)
 
     def delayed_local_sdp_update(self, event, local_sdp_body, ex=None):
+        if self.isOver():
+            return
         if ex is not None:
             if not isinstance(ex, SdpHandlingErrors): raise ex
             event = CCEventFail((ex.code, ex.msg))
-- 
2.43.0


From a9d610aa7911968d116bdd30bab79e8b935fa843 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:42:02 +0000
Subject: [PATCH 018/114] fix: hang up the dialog transferred by REFER in the
 middle of session update

---
 sippy/UasStateUpdating.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/sippy/UasStateUpdating.py b/sippy/UasStateUpdating.py
index 9340e2f..e77d960 100644
--- a/sippy/UasStateUpdating.py
+++ b/sippy/UasStateUpdating.py
@@ -49,6 +49,8 @@ class UasStateUpdating(UasStateGeneric):
         self.ua.sendUasResponse(487, 'Request Terminated')
         req.sendResponse(202, 'Accepted')
         also = req.getHFBody('refer-to').getCopy()
+        breq = self.ua.genRequest('BYE')
+        self.ua.newTransaction(breq)
         self.ua.cancelCreditTimer()
         return self._disconnectFromRequest(req, also, copy_reason = False)
 
-- 
2.43.0


From 97ef8ceaa5da01574dcdeb03a96f3cf8a92f8809 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:42:02 +0000
Subject: [PATCH 019/114] fix: use redirect target, not the response code, when
 redirecting a connected call

---
 sippy/UaStateConnected.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/sippy/UaStateConnected.py b/sippy/UaStateConnected.py
index 63b542e..aecf66c 100644
--- a/sippy/UaStateConnected.py
+++ b/sippy/UaStateConnected.py
@@ -176,9 +176,9 @@ class UaStateConnected(UaStateGeneric):
 
     def _recvEventRedirect(self, event, eh):
         redirect = None
-        redirects = event.getData()
-        if redirects is not None:
-            redirect = redirects[0]
+        scode = event.getData()
+        if scode is not None and scode[3] is not None and len(scode[3]) > 0:
+            redirect = scode[3][0]
         return self._recvEventDisconnectFailRedirect(event, eh, redirect)
 
     def _recvEventUpdate(self, event, eh):
-- 
2.43.0


From ae2317e5455fa62e23f5374fa3fa768ee36bb3b1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:44:13 +0000
Subject: [PATCH 020/114] fix: acknowledge and don't bill for an answer with
 unacceptable SDP

---
 sippy/UacStateTrying.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/sippy/UacStateTrying.py b/sippy/UacStateTrying.py
index d230d14..df5bffe 100644
--- a/sippy/UacStateTrying.py
+++ b/sippy/UacStateTrying.py
@@ -200,6 +200,10 @@ class UacStateTrying(UaStateGeneric):
                 self.ua.global_config['_sip_tm'].cancelTransaction(self.ua.tr,
                   extra_headers = event.getExtraHeaders())
             elif code >= 200 and code < 300:
+                tr.uack = False
+                self.ua.pending_tr = None
+                self.ua.cancelCreditTimer()
+                self.ua.connect_ts = None
                 self.genBYE()
             self.ua.equeue.append(event)
             self.ua.disconnect_ts = resp.rtime
-- 
2.43.0


From bb4166f0e25fb2d8a551a64cb7b0e12c841c16f5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:50:40 +0000
Subject: [PATCH 021/114] fix: don't keep answering alternating 401 and 407
 challenges forever

---
 sippy/UA.py | 10 ++++++----
 1 file changed, 6 insertions(+), 4 deletions(-)

diff --git a/sippy/UA.py b/sippy/UA.py
index 0c3deb5..d526a38 100644
--- a/sippy/UA.py
+++ b/sippy/UA.py
@@ -195,9 +195,11 @@ class UA(object):
         else:
             return None
 
-    def processChallenge(self, resp, cseq, ch_hfname, auth_hfname, extra_headers):
+    def processChallenge(self, resp, cseq, ch_hfname, extra_headers):
         if self.username == None or self.password == None or \
-          self.reqs[cseq].countHFs(auth_hfname) != 0:
+          self.reqs[cseq].countHFs('authorization') != 0 or \
+          self.reqs[cseq].countHFs('proxy-authorization') != 0:
+            # Challenged again, possibly by somebody else on the path
             return False
         for challenge in resp.getHFBodys(ch_hfname):
             #print(self.processChallenge, cseq, challenge, challenge.algorithm)
@@ -224,10 +226,10 @@ class UA(object):
         if method == 'INVITE' and not self.pass_auth and cseq in self.reqs and \
           isinstance(self.state, (self.UacStateTrying, self.UacStateUpdating)):
             if code == 401 and self.processChallenge(resp, cseq, \
-              'www-authenticate', 'authorization', tr.req_extra_headers):
+              'www-authenticate', tr.req_extra_headers):
                 return None
             if code == 407 and self.processChallenge(resp, cseq, \
-              'proxy-authenticate', 'proxy-authorization', tr.req_extra_headers):
+              'proxy-authenticate', tr.req_extra_headers):
                 return None
         if code >= 200 and cseq in self.reqs:
             del self.reqs[cseq]
-- 
2.43.0


From 37926fd06b8a8f1441c3067a83a576c62dba788c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:57:35 +0000
Subject: [PATCH 022/114] fix: send ACK to in-dialog INVITE along the recorded
 route even if the answer doesn't repeat it

---
 sippy/SipTransactionManager.py | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/sippy/SipTransactionManager.py b/sippy/SipTransactionManager.py
index d1a5408..7e31179 100644
--- a/sippy/SipTransactionManager.py
+++ b/sippy/SipTransactionManager.py
@@ -500,10 +500,14 @@ class SipTransactionManager(object):
                     # Prepare and send ACK if necessary
                     fcode = msg.getSCode()[0]
                     tag = msg.getHFBody('to').getTag()
+                    # Inside the dialog the route set that has been recorded when the
+                    # dialog was set up applies
+                    keep_route = t.ack.getHFBody('to').getTag() != None and \
+                      t.ack.countHFs('route') > 0 and msg.countHFs('record-route') == 0
                     if tag != None:
                         t.ack.getHFBody('to').setTag(tag)
                     rAddr = None
-                    if msg.getSCode()[0] >= 200 and msg.getSCode()[0] < 300:
+                    if msg.getSCode()[0] >= 200 and msg.getSCode()[0] < 300 and not keep_route:
                         # Some hairy code ahead
                         if msg.countHFs('contact') > 0:
                             rTarget = msg.getHFBody('contact').getUrl().getCopy()
-- 
2.43.0


From 20c78fd6979b5a6d51b57d4babb163489a9a6271 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:07:42 +0000
Subject: [PATCH 023/114] fix: skip the rest of a route group when its time is
 over

---
 sippy/b2bua.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/sippy/b2bua.py b/sippy/b2bua.py
index e1380d8..86e26b8 100755
--- a/sippy/b2bua.py
+++ b/sippy/b2bua.py
@@ -403,17 +403,17 @@ class CallController(object):
             self.global_config['_cmap'].ccmap.remove(self)
 
     def group_expires(self, skipto):
-        if self.state != CCStateARComplete or len(self.routes) == 0 or self.routes[0][0] > skipto or \
+        if self.state != CCStateARComplete or len(self.routes) == 0 or self.routes[0].rnum > skipto or \
           (not isinstance(self.uaA.state, self.uaA.UasStateTrying) and not isinstance(self.uaA.state, self.uaA.UasStateRinging)):
             return
         # When the last group in the list has timeouted don't disconnect
         # the current attempt forcefully. Instead, make sure that if the
         # current originate call leg fails no more routes will be
         # processed.
-        if skipto == self.routes[-1][0] + 1:
+        if skipto > self.routes[-1].rnum:
             self.routes = []
             return
-        while self.routes[0][0] != skipto:
+        while self.routes[0].rnum < skipto:
             self.routes.pop(0)
         self.uaO.disconnect()
 
-- 
2.43.0


From 3cbfc1491ae8e5e5fde01c8798cbab7e66bfcdb5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:07:42 +0000
Subject: [PATCH 024/114] fix: apply the credit time granted by RADIUS to
 routes that have none of their own

---
 sippy/B2B/Route.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/sippy/B2B/Route.py b/sippy/B2B/Route.py
index ab76deb..d77ccfb 100644
--- a/sippy/B2B/Route.py
+++ b/sippy/B2B/Route.py
@@ -214,7 +214,7 @@ class B2BRoute(object):
         if not self.cli_set:
             self._cli = default_cli
         if not self.crt_set:
-            self.crt_set = default_credit_time
+            self.credit_time = default_credit_time
         if 'gt' in self.params:
             timeout, skip = self.params['gt'].split(',', 1)
             self.params['group_timeout'] = (int(timeout), rnum + int(skip))
-- 
2.43.0


From 67d10bbe312264f889be13d3daf697f99cdb0271 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:11:12 +0000
Subject: [PATCH 025/114] fix: include the challenge in the 401 sent when IP
 authentication fails

---
 sippy/b2bua.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/sippy/b2bua.py b/sippy/b2bua.py
index 86e26b8..9b5386e 100755
--- a/sippy/b2bua.py
+++ b/sippy/b2bua.py
@@ -224,7 +224,7 @@ class CallController(object):
             if isinstance(self.uaA.state, self.uaA.UasStateTrying):
                 if self.challenge != None:
                     event = CCEventFail((401, 'Unauthorized'))
-                    event.extra_header = self.challenge
+                    event.challenges = [self.challenge]
                 else:
                     event = CCEventFail((403, 'Auth Failed'))
                 self.uaA.recvEvent(event)
-- 
2.43.0


From 0ddac7a08b3848f214b5abc968350a41557baf20 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:11:12 +0000
Subject: [PATCH 026/114] fix: treat a missing or unreadable RADIUS answer as
 an error, don't leave the request without any

---
 sippy/Radius_client.py | 27 ++++++++++++++++-----------
 1 file changed, 16 insertions(+), 11 deletions(-)

diff --git a/sippy/Radius_client.py b/sippy/Radius_client.py
index 8c7b4d4..d131735 100644
--- a/sippy/Radius_client.py
+++ b/sippy/Radius_client.py
@@ -67,14 +67,19 @@ class Radius_client(External_command):
         if result_callback == None:
             return
         nav = []
-        for av in result[:-1]:
-            a, v = [x.strip() for x in av.decode().split(' = ', 1)]
-            v = v.strip('\'')
-            if (a == 'Cisco-AVPair' or a in self._cisco_vsa_names):
-                t = v.split('=', 1)
-                if len(t) > 1:
-                    a, v = t
-            elif v.startswith(a + '='):
-                v = v[len(a) + 1:]
-            nav.append((a, v))
-        External_command.process_result(self, result_callback, (tuple(nav), int(result[-1])), *callback_parameters)
+        try:
+            for av in result[:-1]:
+                a, v = [x.strip() for x in av.decode().split(' = ', 1)]
+                v = v.strip('\'')
+                if (a == 'Cisco-AVPair' or a in self._cisco_vsa_names):
+                    t = v.split('=', 1)
+                    if len(t) > 1:
+                        a, v = t
+                elif v.startswith(a + '='):
+                    v = v[len(a) + 1:]
+                nav.append((a, v))
+            rcode = int(result[-1])
+        except (ValueError, IndexError):
+            # The helper has died or has said something incomprehensible
+            nav, rcode = [], -1
+        External_command.process_result(self, result_callback, (tuple(nav), rcode), *callback_parameters)
-- 
2.43.0


From 7786cb581f40359ff48e61732e1a6f85a5bde7cc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:11:44 +0000
Subject: [PATCH 027/114] fix: answer 500 to a call whose routing information
 is malformed instead of leaving it hanging

---
 sippy/b2bua.py | 29 ++++++++++++++++++++---------
 1 file changed, 20 insertions(+), 9 deletions(-)

diff --git a/sippy/b2bua.py b/sippy/b2bua.py
index 9b5386e..7b76885 100755
--- a/sippy/b2bua.py
+++ b/sippy/b2bua.py
@@ -252,6 +252,24 @@ class CallController(object):
             self.caller_name = caller_name[0]
             if len(self.caller_name) == 0:
                 self.caller_name = None
+        try:
+            if not self.setRoutes(results):
+                self.uaA.recvEvent(CCEventFail((500, 'Internal Server Error (2)')))
+                self.state = CCStateDead
+                return
+        except Exception:
+            dump_exception('can\'t process routing information')
+            self.uaA.recvEvent(CCEventFail((500, 'Internal Server Error (4)')))
+            self.state = CCStateDead
+            return
+        if len(self.routes) == 0:
+            self.uaA.recvEvent(CCEventFail((500, 'Internal Server Error (3)')))
+            self.state = CCStateDead
+            return
+        self.state = CCStateARComplete
+        self.placeOriginate(self.routes.pop(0))
+
+    def setRoutes(self, results):
         credit_time = [x for x in results[0] if x[0] == 'h323-credit-time']
         if len(credit_time) > 0:
             credit_time = int(credit_time[0][1])
@@ -260,9 +278,7 @@ class CallController(object):
         if not '_static_routes' in self.global_config:
             routing = [x for x in results[0] if x[0] == 'h323-ivr-in' and x[1].startswith('Routing:')]
             if len(routing) == 0:
-                self.uaA.recvEvent(CCEventFail((500, 'Internal Server Error (2)')))
-                self.state = CCStateDead
-                return
+                return False
             routing = [B2BRoute(x[1][8:]) for x in routing]
         elif self.req_source == SRC_PROXY and SRC_PROXY in self.global_config['_static_routes']:
             routing = [self.global_config['_static_routes'][SRC_PROXY].getCopy(),]
@@ -278,12 +294,7 @@ class CallController(object):
                 continue
             self.routes.append(oroute)
             #print('Got route:', oroute.hostport, oroute.cld)
-        if len(self.routes) == 0:
-            self.uaA.recvEvent(CCEventFail((500, 'Internal Server Error (3)')))
-            self.state = CCStateDead
-            return
-        self.state = CCStateARComplete
-        self.placeOriginate(self.routes.pop(0))
+        return True
 
     def placeOriginate(self, oroute):
         cId, cli, cld, body, auth, caller_name = self.eTry.getData()
-- 
2.43.0


From 086d7f8aab8a74fcfbdb98015fe0d35f50eb83ad Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:11:44 +0000
Subject: [PATCH 028/114] fix: release a call refused with 483

---
 sippy/b2bua.py | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/sippy/b2bua.py b/sippy/b2bua.py
index 7b76885..aa6e14c 100755
--- a/sippy/b2bua.py
+++ b/sippy/b2bua.py
@@ -298,6 +298,10 @@ class CallController(object):
 
     def placeOriginate(self, oroute):
         cId, cli, cld, body, auth, caller_name = self.eTry.getData()
+        if self.eTry.max_forwards != None and self.eTry.max_forwards <= 1:
+            self.uaA.recvEvent(CCEventFail((483, 'Too Many Hops')))
+            self.state = CCStateDead
+            return
         cld = oroute.cld
         self.huntstop_scodes = oroute.params.get('huntstop_scodes', ())
         if 'static_tr_out' in self.global_config:
@@ -362,10 +366,6 @@ class CallController(object):
           oroute.params.get('caller_name', self.caller_name)))
         if self.eTry.max_forwards != None:
             event.max_forwards = self.eTry.max_forwards - 1
-            if event.max_forwards <= 0:
-                self.uaA.recvEvent(CCEventFail((483, 'Too Many Hops')))
-                self.state = CCStateDead
-                return
         event.reason_rfc3326 = self.eTry.reason_rfc3326
         po_proc = oroute.params.get('po_proc', None)
         if po_proc is not None:
-- 
2.43.0


From ad57adf805fb068d704209a82c054c3eb6fd716a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:11:44 +0000
Subject: [PATCH 029/114] fix: place calls over the sip-ua route

---
 sippy/b2bua.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/sippy/b2bua.py b/sippy/b2bua.py
index aa6e14c..bffda30 100755
--- a/sippy/b2bua.py
+++ b/sippy/b2bua.py
@@ -310,7 +310,7 @@ class CallController(object):
         if oroute.hostport == DST_SIP_UA:
             host = self.source[0]
             nh_address, same_af = self.source, True
-        if oroute.hostport == DST_WSS_UA:
+        elif oroute.hostport == DST_WSS_UA:
             host = self.req_target.host
             (nh_address, nh_transport), same_af = self.req_target.getTAddr(), True
             UA_kwa['nh_transport'] = nh_transport
-- 
2.43.0


From 37cccc5e55b8d301d72d84386c7a30d15cdb1a1e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:11:44 +0000
Subject: [PATCH 030/114] fix: don't translate the number of a call that has
 none

---
 sippy/b2bua.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/sippy/b2bua.py b/sippy/b2bua.py
index bffda30..6e6cd06 100755
--- a/sippy/b2bua.py
+++ b/sippy/b2bua.py
@@ -304,7 +304,7 @@ class CallController(object):
             return
         cld = oroute.cld
         self.huntstop_scodes = oroute.params.get('huntstop_scodes', ())
-        if 'static_tr_out' in self.global_config:
+        if cld is not None and 'static_tr_out' in self.global_config:
             cld = re_replace(self.global_config['static_tr_out'], cld)
         UA_kwa = {}
         if oroute.hostport == DST_SIP_UA:
-- 
2.43.0


From 9c1237547a2e4043f9f3a03d478c9624e3fd8105 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:14:09 +0000
Subject: [PATCH 031/114] fix: don't split credentials at commas inside of
 quotes

---
 sippy/SipAuthorization.py | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/sippy/SipAuthorization.py b/sippy/SipAuthorization.py
index cbfe997..530b140 100644
--- a/sippy/SipAuthorization.py
+++ b/sippy/SipAuthorization.py
@@ -79,7 +79,11 @@ class SipAuthorization(SipGenericHF):
 
     def parse(self):
         self.otherparams = []
-        for name, value in [x.strip(', ').split('=', 1) for x in self.body.split(' ', 1)[1].split(',')]:
+        # Commas inside of the quotes do not separate parameters
+        qparts = self.body.split(' ', 1)[1].split('"')
+        qparts[::2] = [x.replace(',', '\n') for x in qparts[::2]]
+        for name, value in [x.strip().split('=', 1) for x in '"'.join(qparts).split('\n') if len(x.strip()) > 0]:
+            name, value = name.strip(), value.strip()
             ci_name = name.lower()
             if ci_name == 'username':
                 self.username = value.strip('"')
-- 
2.43.0


From 04e9b434949c7f8899b765cf39504c25a74dd93e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:14:28 +0000
Subject: [PATCH 032/114] fix: find headers regardless of case of the name
 asked for

---
 sippy/SipMsg.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/sippy/SipMsg.py b/sippy/SipMsg.py
index e7cfdb8..246b9ba 100644
--- a/sippy/SipMsg.py
+++ b/sippy/SipMsg.py
@@ -189,6 +189,7 @@ class SipMsg(object):
         return self.startline
 
     def getHFs(self, name):
+        name = name.lower()
         return [x for x in self.headers if x.name == name]
 
     def countHFs(self, name):
-- 
2.43.0


From 66e15db84734598fd91b11730681643560629fe3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:18:46 +0000
Subject: [PATCH 033/114] fix: report true session time in interim accounting
 records

---
 sippy/RadiusAccounting.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/sippy/RadiusAccounting.py b/sippy/RadiusAccounting.py
index f146581..87903d6 100644
--- a/sippy/RadiusAccounting.py
+++ b/sippy/RadiusAccounting.py
@@ -27,6 +27,7 @@
 
 from time import time, strftime, gmtime
 from sippy.Time.Timeout import Timeout
+from sippy.Time.MonoTime import MonoTime
 
 sipErrToH323Err = {400:('7f', 'Interworking, unspecified'), 401:('39', 'Bearer capability not authorized'), \
   402:('15', 'Call rejected'), 403:('39', 'Bearer capability not authorized'), 404:('1', 'Unallocated number'), \
@@ -121,7 +122,7 @@ class RadiusAccounting(object):
         if not self.complete:
             return
         if rtime == None:
-            rtime = time()
+            rtime = MonoTime()
         if ua != None:
             duration, delay, connected = ua.getAcct()[:3]
         else:
-- 
2.43.0


From 8f2d78ab73c1ba39044690fe485c2723d68d5c15 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:18:46 +0000
Subject: [PATCH 034/114] fix: don't let quotes and newlines in SIP data inject
 RADIUS attributes

---
 sippy/Radius_client.py | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/sippy/Radius_client.py b/sippy/Radius_client.py
index d131735..fb1fbf9 100644
--- a/sippy/Radius_client.py
+++ b/sippy/Radius_client.py
@@ -36,6 +36,10 @@ class Radius_client(External_command):
       'h323-voice-quality', 'h323-credit-time', 'h323-return-code', 'h323-redirect-number', \
       'h323-preferred-lang', 'h323-billing-model', 'h323-currency')
 
+    # One attribute per line and in quotes, whatever the peer puts into the
+    # values
+    _unsafe = {ord('\r'):' ', ord('\n'):' ', ord('\0'):' ', ord('"'):"'"}
+
     def __init__(self, global_config = {}):
         self.global_config = global_config
         command = global_config.getdefault('radiusclient', '/usr/local/sbin/radiusclient')
@@ -54,7 +58,7 @@ class Radius_client(External_command):
                 a = 'Cisco-AVPair'
             elif a in self._cisco_vsa_names:
                 v = '%s=%s' % (str(a), str(v))
-            data.append('%s="%s"' % (str(a), str(v)))
+            data.append('%s="%s"' % (str(a).translate(self._unsafe), str(v).translate(self._unsafe)))
         return data
 
     def do_auth(self, attributes, result_callback, *callback_parameters):
-- 
2.43.0


From 1d203be983f113016af6137bcda839c7e05cffe5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:13:47 +0000
Subject: [PATCH 035/114] fix: list address of the callee, not of the caller,
 for the outgoing call leg

---
 sippy/b2bua.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/sippy/b2bua.py b/sippy/b2bua.py
index 6e6cd06..e28122a 100755
--- a/sippy/b2bua.py
+++ b/sippy/b2bua.py
@@ -614,7 +614,7 @@ class CallMap(object):
             else:
                 r.append(None)
             if cc.uaO != None:
-                (_h, _p), _t = cc.uaA.getRAddr0()
+                (_h, _p), _t = cc.uaO.getRAddr0()
                 r.append((cc.uaO.state.sname, _t, _h, _p,
                          cc.uaO.getCLI(), cc.uaO.getCLD()))
             else:
-- 
2.43.0


From 7d7eb7e9129a71d24fe052f27ba8d8523239fb8d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:13:47 +0000
Subject: [PATCH 036/114] fix: make 'd *' command disconnect all calls

---
 sippy/B2B/SimpleAPI.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/sippy/B2B/SimpleAPI.py b/sippy/B2B/SimpleAPI.py
index 2f6c0c9..3d7e17b 100644
--- a/sippy/B2B/SimpleAPI.py
+++ b/sippy/B2B/SimpleAPI.py
@@ -104,7 +104,7 @@ class B2BSimpleAPI(CLIConnectionManager):
                 clim.send('ERROR: syntax error: d <call-id>\n')
                 return False
             if args[0] == '*':
-                self.discAll()
+                ccm.discAll()
                 clim.send('OK\n')
                 return False
             dlist = [x for x in ccm.ccmap if str(x.cId) == args[0]]
-- 
2.43.0


From 2b73a424a87ff45e6e1439a02793ddd18e2f1690 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:14:59 +0000
Subject: [PATCH 037/114] fix: make 'lt' and 'llt' commands work with Python 3

---
 sippy/B2B/SimpleAPI.py | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/sippy/B2B/SimpleAPI.py b/sippy/B2B/SimpleAPI.py
index 3d7e17b..a66a382 100644
--- a/sippy/B2B/SimpleAPI.py
+++ b/sippy/B2B/SimpleAPI.py
@@ -72,10 +72,10 @@ class B2BSimpleAPI(CLIConnectionManager):
             return False
         if cmd == 'lt':
             res = 'In-memory server transactions:\n'
-            for tid, t in self.global_config['_sip_tm'].tserver.iteritems():
+            for tid, t in self.global_config['_sip_tm'].tserver.items():
                 res += '%s %s %s\n' % (tid, t.method, t.state)
             res += 'In-memory client transactions:\n'
-            for tid, t in self.global_config['_sip_tm'].tclient.iteritems():
+            for tid, t in self.global_config['_sip_tm'].tclient.items():
                 res += '%s %s %s\n' % (tid, t.method, t.state)
             clim.send(res)
             return False
@@ -86,13 +86,13 @@ class B2BSimpleAPI(CLIConnectionManager):
                 mindur = 0.0
             ctime = MonoTime()
             res = 'In-memory server transactions:\n'
-            for tid, t in self.global_config['_sip_tm'].tserver.iteritems():
+            for tid, t in self.global_config['_sip_tm'].tserver.items():
                 duration = ctime - t.rtime
                 if duration < mindur:
                     continue
                 res += '%s %s %s %s\n' % (tid, t.method, t.state, duration)
             res += 'In-memory client transactions:\n'
-            for tid, t in self.global_config['_sip_tm'].tclient.iteritems():
+            for tid, t in self.global_config['_sip_tm'].tclient.items():
                 duration = ctime - t.rtime
                 if duration < mindur:
                     continue
-- 
2.43.0


From 70a602faebef7a46451321fd868a21b0855e3838 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:14:59 +0000
Subject: [PATCH 038/114] fix: refuse 'r' command with malformed id instead of
 dropping the connection

---
 sippy/B2B/SimpleAPI.py | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/sippy/B2B/SimpleAPI.py b/sippy/B2B/SimpleAPI.py
index a66a382..00ed62a 100644
--- a/sippy/B2B/SimpleAPI.py
+++ b/sippy/B2B/SimpleAPI.py
@@ -119,8 +119,12 @@ class B2BSimpleAPI(CLIConnectionManager):
             if len(args) not in (1, 2):
                 clim.send('ERROR: syntax error: r <id> [<media-index>]\n')
                 return False
-            idx = int(args[0])
-            media_index = int(args[1]) if len(args) == 2 else 0
+            try:
+                idx = int(args[0])
+                media_index = int(args[1]) if len(args) == 2 else 0
+            except ValueError:
+                clim.send('ERROR: syntax error: r <id> [<media-index>]\n')
+                return False
             dlist = [x for x in ccm.ccmap if x.id == idx]
             if len(dlist) == 0:
                 clim.send('ERROR: no call with id of %d has been found\n' % idx)
-- 
2.43.0


From 2f1dd6c31ea4d827ccfa23f72901da84e8190803 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:14:59 +0000
Subject: [PATCH 039/114] fix: don't drop CLI connection when there is
 something non-ASCII to list

---
 sippy/CLIManager.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/sippy/CLIManager.py b/sippy/CLIManager.py
index 1f9c47c..aba99b2 100644
--- a/sippy/CLIManager.py
+++ b/sippy/CLIManager.py
@@ -287,7 +287,7 @@ class CLIManager(object):
         if self.wthr is None:
             return
         if not isinstance(data, _uobj):
-            data = data.encode('ascii')
+            data = data.encode('utf-8')
         self.wthr.send(data)
 
     def write(self, data):
-- 
2.43.0


From 29ae4a31c61585af44ef82fef56a054bd2a1fdb8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:16:27 +0000
Subject: [PATCH 040/114] fix: make 'l' command work when there are calls to
 list

---
 sippy/B2B/SimpleAPI.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/sippy/B2B/SimpleAPI.py b/sippy/B2B/SimpleAPI.py
index 00ed62a..a5fdd49 100644
--- a/sippy/B2B/SimpleAPI.py
+++ b/sippy/B2B/SimpleAPI.py
@@ -54,7 +54,7 @@ class B2BSimpleAPI(CLIConnectionManager):
         if cmd == 'l':
             res = 'In-memory calls:\n'
             total = 0
-            for (cid, sname), uaast, uaost in ccm.listActiveCalls():
+            for cid, sname, uaast, uaost in ccm.listActiveCalls():
                 res += f'{cid}: {sname} ('
                 if uaast is not None:
                     _s, _t, _h, _p, _cld, _cli = uaast
-- 
2.43.0


From f290e05a6c690d6e61372c8cfa8fc33c4cb3c123 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:25:05 +0000
Subject: [PATCH 041/114] fix: end the call when SDP in the ACK is unacceptable
 instead of leaving one side waiting

---
 sippy/UaStateConnected.py | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/sippy/UaStateConnected.py b/sippy/UaStateConnected.py
index aecf66c..60fcd9c 100644
--- a/sippy/UaStateConnected.py
+++ b/sippy/UaStateConnected.py
@@ -140,7 +140,13 @@ class UaStateConnected(UaStateGeneric):
             callback(self.ua, req.rtime, self.ua.origin)
         if body is not None:
             if self.ua.on_remote_sdp_change != None:
-                body = self.ua.on_remote_sdp_change(body, partial(self.ua.delayed_remote_sdp_update, event))
+                try:
+                    body = self.ua.on_remote_sdp_change(body, partial(self.ua.delayed_remote_sdp_update, event))
+                except SdpHandlingErrors as e:
+                    event = CCEventFail((e.code, e.msg), rtime = req.rtime, origin = self.ua.origin)
+                    event.reason_rfc3326 = e.getReason()
+                    self.ua.equeue.append(event)
+                    return self.recvEvent(event)
                 if body is None:
                     return None
             self.ua.rSDP = body.getCopy()
-- 
2.43.0


From a3260e4ef35196708b774a9ebffeaeb9d26cbf55 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:34:40 +0000
Subject: [PATCH 042/114] fix: don't wait for the RTP proxy when there is
 nothing in the SDP for it to handle

---
 sippy/Rtp_proxy/session.py |  4 ++--
 sippy/UaStateConnected.py  | 12 ++++++++----
 sippy/UacStateIdle.py      |  5 +++--
 sippy/UasStateGeneric.py   |  3 +--
 4 files changed, 14 insertions(+), 10 deletions(-)

diff --git a/sippy/Rtp_proxy/session.py b/sippy/Rtp_proxy/session.py
index 307b139..618ba50 100644
--- a/sippy/Rtp_proxy/session.py
+++ b/sippy/Rtp_proxy/session.py
@@ -166,10 +166,10 @@ class Rtp_proxy_session(object):
         self.rtpp_seq.delete()
 
     def on_caller_sdp_change(self, sdp_body, result_callback):
-        self.caller._on_sdp_change(self, sdp_body, result_callback)
+        return self.caller._on_sdp_change(self, sdp_body, result_callback)
 
     def on_callee_sdp_change(self, sdp_body, result_callback):
-        self.callee._on_sdp_change(self, sdp_body, result_callback)
+        return self.callee._on_sdp_change(self, sdp_body, result_callback)
 
     def stats(self, result_callback, index = 0, *callback_parameters):
         command = 'Q %s %s %s' % ('%s-%d' % (self.call_id, index), self.from_tag, self.to_tag)
diff --git a/sippy/UaStateConnected.py b/sippy/UaStateConnected.py
index 60fcd9c..cb3da5e 100644
--- a/sippy/UaStateConnected.py
+++ b/sippy/UaStateConnected.py
@@ -201,16 +201,19 @@ class UaStateConnected(UaStateGeneric):
             return None
         if body is not None and self.ua.on_local_sdp_change is not None and body.needs_update:
             try:
-                self.ua.on_local_sdp_change(body, partial(self.ua.delayed_local_sdp_update, event))
+                body = self.ua.on_local_sdp_change(body, partial(self.ua.delayed_local_sdp_update, event))
             except SdpHandlingErrors as e:
                 event = CCEventFail((e.code, e.msg), rtime = event.rtime)
                 event.reason_rfc3326 = e.getReason()
                 self.ua.equeue.append(event)
+                return None
             except Exception as e:
                 event = CCEventFail((400, 'Malformed SDP Body'), rtime = event.rtime)
                 event.setWarning(str(e))
                 self.ua.equeue.append(event)
-            return None
+                return None
+            if body is None:
+                return None
         if event.max_forwards is not None:
             if event.max_forwards <= 0:
                 self.ua.equeue.append(CCEventFail((483, 'Too Many Hops'), rtime = event.rtime))
@@ -238,8 +241,9 @@ class UaStateConnected(UaStateGeneric):
             self.ua.expire_timer = None
         code, reason, body = event.getData()
         if body is not None and self.ua.on_local_sdp_change is not None and body.needs_update:
-            self.ua.on_local_sdp_change(body, partial(self.ua.delayed_local_sdp_update, event))
-            return None
+            body = self.ua.on_local_sdp_change(body, partial(self.ua.delayed_local_sdp_update, event))
+            if body is None:
+                return None
         self.ua.cancelCreditTimer() # prevent timer leak on body-less re-INVITE
         self.ua.startCreditTimer(event.rtime)
         self.ua.connect_ts = event.rtime
diff --git a/sippy/UacStateIdle.py b/sippy/UacStateIdle.py
index 3360634..0894f42 100644
--- a/sippy/UacStateIdle.py
+++ b/sippy/UacStateIdle.py
@@ -52,14 +52,15 @@ class UacStateIdle(UaStateGeneric):
             if body is not None:
                 if self.ua.on_local_sdp_change != None and body.needs_update:
                     try:
-                        self.ua.on_local_sdp_change(body, partial(self.ua.delayed_local_sdp_update, event))
+                        body = self.ua.on_local_sdp_change(body, partial(self.ua.delayed_local_sdp_update, event))
                     except SdpHandlingErrors as ex:
                         event = CCEventFail((ex.code, ex.msg), rtime = event.rtime, origin = self.ua.origin)
                         event.reason_rfc3326 = ex.getReason()
                         self.ua.equeue.append(event)
                         self.ua.disconnect_ts = event.rtime
                         return (self.ua.UaStateFailed, self.ua.fail_cbs, event.rtime, self.ua.origin, ex.code)
-                    return None
+                    if body is None:
+                        return None
             else:
                 self.ua.late_media = True
             if cId == None:
diff --git a/sippy/UasStateGeneric.py b/sippy/UasStateGeneric.py
index 0e32ba4..70444c0 100644
--- a/sippy/UasStateGeneric.py
+++ b/sippy/UasStateGeneric.py
@@ -32,8 +32,7 @@ from sippy.UaStateGeneric import UaStateGeneric
 class UasStateGeneric(UaStateGeneric):
     def _delayLocalSdpUpdate(self, event, body):
         if body is not None and self.ua.on_local_sdp_change is not None and body.needs_update:
-            self.ua.on_local_sdp_change(body, partial(self.ua.delayed_local_sdp_update, event))
-            return True
+            return self.ua.on_local_sdp_change(body, partial(self.ua.delayed_local_sdp_update, event)) is None
         return False
 
     def _recvEventRing(self, event, eh, contacts = None):
-- 
2.43.0


From 5d8dc2e2fe53b44d01e005d9e1ad4e6ea80b92d3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:47:26 +0000
Subject: [PATCH 043/114] fix: reject re-INVITE with 491 when the other side is
 busy with one of its own

---
 sippy/UasStateUpdating.py | 9 ++++++++-
 1 file changed, 8 insertions(+), 1 deletion(-)

diff --git a/sippy/UasStateUpdating.py b/sippy/UasStateUpdating.py
index e77d960..5bbd03a 100644
--- a/sippy/UasStateUpdating.py
+++ b/sippy/UasStateUpdating.py
@@ -25,7 +25,8 @@
 # SOFTWARE, EVEN IF ADVISED OF THE POSSIBILITY OF SUCH DAMAGE.
 
 from sippy.UasStateGeneric import UasStateGeneric
-from sippy.CCEvents import CCEventDisconnect, CCEventRing, CCEventConnect, CCEventFail, CCEventRedirect
+from sippy.CCEvents import CCEventDisconnect, CCEventRing, CCEventConnect, CCEventFail, CCEventRedirect, \
+  CCEventUpdate
 
 class UasStateUpdating(UasStateGeneric):
     sname = 'Updating(UAS)'
@@ -69,6 +70,11 @@ class UasStateUpdating(UasStateGeneric):
         super()._recvEventRedirect(event, eh)
         return (self.ua.UaStateConnected,)
 
+    def _recvEventUpdate(self, event, eh):
+        # The other side is busy with the update of its own
+        self.ua.equeue.append(CCEventFail((491, 'Request Pending'), rtime = event.rtime))
+        return None
+
     def _recvEventConnect(self, event, eh):
         cdata = self._getConnectData(event)
         if cdata is None:
@@ -93,6 +99,7 @@ class UasStateUpdating(UasStateGeneric):
 
     recv_event_handlers = {
       CCEventRing: _recvEventRing,
+      CCEventUpdate: _recvEventUpdate,
       CCEventConnect: _recvEventConnect,
       CCEventRedirect: _recvEventRedirect,
       CCEventFail: _recvEventFail,
-- 
2.43.0


From 9a7f6593386d7652c2e66de9b26d132feb035596 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:47:26 +0000
Subject: [PATCH 044/114] fix: don't leave one side of the call up when the RTP
 proxy fails during re-INVITE

---
 sippy/UA.py               | 39 ++++++++++++++++++++++++++++-----------
 sippy/UacStateUpdating.py |  2 +-
 2 files changed, 29 insertions(+), 12 deletions(-)

diff --git a/sippy/UA.py b/sippy/UA.py
index d526a38..549c889 100644
--- a/sippy/UA.py
+++ b/sippy/UA.py
@@ -32,7 +32,7 @@ from sippy.UacStateIdle import UacStateIdle
 from sippy.SipRequest import SipRequest
 from sippy.SipContentType import SipContentType
 from sippy.SipMaxForwards import SipMaxForwards
-from sippy.CCEvents import CCEventTry, CCEventFail, CCEventDisconnect, CCEventInfo
+from sippy.CCEvents import CCEventTry, CCEventFail, CCEventDisconnect, CCEventInfo, CCEventUpdate
 from sippy.MsgBody import MsgBody
 from sippy.Time.MonoTime import MonoTime
 from sippy.Time.Timeout import TimeoutAbsMono
@@ -422,29 +422,46 @@ class UA(object):
             rval[2] = self.rUri.getTag()
         return tuple(rval)
 
-    def delayed_remote_sdp_update(self, event, remote_sdp_body, ex=None):
+    def delayed_remote_sdp_update(self, event, remote_sdp_body, ex=None, dialog_refresh=False):
         if self.isOver():
             return
         if ex is not None:
             if not isinstance(ex, SdpHandlingErrors): raise ex
-            event = CCEventFail((ex.code, ex.msg))
-            event.reason_rfc3326 = ex.getReason()
-        else:
-            self.rSDP = remote_sdp_body.getCopy()
+            fail_event = CCEventFail((ex.code, ex.msg))
+            fail_event.reason_rfc3326 = ex.getReason()
+            if isinstance(event, CCEventUpdate):
+                # The owner has not been told about the update, just reject it
+                self.recvEvent(fail_event)
+                return
+            self.equeue.append(fail_event)
+            if dialog_refresh:
+                # The dialog is going to be released, not just the request failed
+                self.equeue.append(CCEventDisconnect(rtime = fail_event.rtime, origin = self.origin))
+            self.emitPendingEvents()
+            self.recvEvent(fail_event)
+            return
+        self.rSDP = remote_sdp_body.getCopy()
         self.equeue.append(event)
         self.emitPendingEvents()
-        if ex is not None:
-            self.recvEvent(event)
 
     def delayed_local_sdp_update(self, event, local_sdp_body, ex=None):
         if self.isOver():
             return
         if ex is not None:
             if not isinstance(ex, SdpHandlingErrors): raise ex
-            event = CCEventFail((ex.code, ex.msg))
-            event.reason_rfc3326 = ex.getReason()
-            self.equeue.append(event)
+            fail_event = CCEventFail((ex.code, ex.msg))
+            fail_event.reason_rfc3326 = ex.getReason()
+            refresh_answer = isinstance(self.state, self.UasStateUpdating)
+            self.equeue.append(fail_event)
             self.emitPendingEvents()
+            if isinstance(event, CCEventUpdate):
+                # Only this request has failed, the dialog is intact
+                return
+            self.recvEvent(fail_event)
+            if refresh_answer:
+                # The other side is released, don't leave this one alone
+                self.recvEvent(CCEventDisconnect(rtime = fail_event.rtime))
+            return
         self.recvEvent(event)
 
     def getAcct(self):
diff --git a/sippy/UacStateUpdating.py b/sippy/UacStateUpdating.py
index a3009c2..4cc3232 100644
--- a/sippy/UacStateUpdating.py
+++ b/sippy/UacStateUpdating.py
@@ -65,7 +65,7 @@ class UacStateUpdating(UaStateGeneric):
             event = CCEventConnect(scode, rtime = resp.rtime, origin = self.ua.origin)
             if body is not None:
                 if self.ua.on_remote_sdp_change != None:
-                    cb_func = partial(self.ua.delayed_remote_sdp_update, event)
+                    cb_func = partial(self.ua.delayed_remote_sdp_update, event, dialog_refresh = True)
                     try:
                         body = self.ua.on_remote_sdp_change(body, cb_func)
                     except SdpHandlingErrors as e:
-- 
2.43.0


From 0e92aa32d0a09b756e5468070e95483dc8fc7a06 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:47:26 +0000
Subject: [PATCH 045/114] fix: pass SDP in provisional response to re-INVITE
 through the SDP handler

---
 sippy/UacStateUpdating.py | 18 ++++++++++++++++--
 1 file changed, 16 insertions(+), 2 deletions(-)

diff --git a/sippy/UacStateUpdating.py b/sippy/UacStateUpdating.py
index 4cc3232..fa42d87 100644
--- a/sippy/UacStateUpdating.py
+++ b/sippy/UacStateUpdating.py
@@ -58,8 +58,22 @@ class UacStateUpdating(UaStateGeneric):
         code, reason = resp.getSCode()
         scode = (code, reason, body)
         if code < 200:
-            if code != 100:
-                self.ua.equeue.append(CCEventRing(scode, rtime = resp.rtime, origin = self.ua.origin))
+            if code == 100:
+                return None
+            event = CCEventRing(scode, rtime = resp.rtime, origin = self.ua.origin)
+            if body is not None and self.ua.on_remote_sdp_change is not None:
+                cb_func = partial(self.ua.delayed_remote_sdp_update, event, dialog_refresh = True)
+                try:
+                    body = self.ua.on_remote_sdp_change(body, cb_func)
+                except SdpHandlingErrors as e:
+                    event = CCEventFail((e.code, e.msg), rtime = resp.rtime, origin = self.ua.origin)
+                    event.reason_rfc3326 = e.getReason()
+                    self.ua.equeue.append(event)
+                    self.ua.equeue.append(CCEventDisconnect(rtime = resp.rtime, origin = self.ua.origin))
+                    return self.recvEvent(event)
+                if body is None:
+                    return None
+            self.ua.equeue.append(event)
             return None
         if code >= 200 and code < 300:
             event = CCEventConnect(scode, rtime = resp.rtime, origin = self.ua.origin)
-- 
2.43.0


From d36874e920fa499ce93a2e2f668c7624889fb85a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:51:58 +0000
Subject: [PATCH 046/114] fix: handle malformed SDP in answer to re-INVITE and
 in late offer answer instead of letting exception escape

---
 sippy/UaStateConnected.py | 6 +++++-
 sippy/UasStateGeneric.py  | 7 ++++++-
 2 files changed, 11 insertions(+), 2 deletions(-)

diff --git a/sippy/UaStateConnected.py b/sippy/UaStateConnected.py
index cb3da5e..0740f83 100644
--- a/sippy/UaStateConnected.py
+++ b/sippy/UaStateConnected.py
@@ -241,7 +241,11 @@ class UaStateConnected(UaStateGeneric):
             self.ua.expire_timer = None
         code, reason, body = event.getData()
         if body is not None and self.ua.on_local_sdp_change is not None and body.needs_update:
-            body = self.ua.on_local_sdp_change(body, partial(self.ua.delayed_local_sdp_update, event))
+            try:
+                body = self.ua.on_local_sdp_change(body, partial(self.ua.delayed_local_sdp_update, event))
+            except SdpHandlingErrors as e:
+                self.ua.delayed_local_sdp_update(event, None, ex = e)
+                return None
             if body is None:
                 return None
         self.ua.cancelCreditTimer() # prevent timer leak on body-less re-INVITE
diff --git a/sippy/UasStateGeneric.py b/sippy/UasStateGeneric.py
index 70444c0..adf454b 100644
--- a/sippy/UasStateGeneric.py
+++ b/sippy/UasStateGeneric.py
@@ -28,11 +28,16 @@ from functools import partial
 
 from sippy.SipContact import SipContact
 from sippy.UaStateGeneric import UaStateGeneric
+from sippy.Exceptions.SdpParseError import SdpHandlingErrors
 
 class UasStateGeneric(UaStateGeneric):
     def _delayLocalSdpUpdate(self, event, body):
         if body is not None and self.ua.on_local_sdp_change is not None and body.needs_update:
-            return self.ua.on_local_sdp_change(body, partial(self.ua.delayed_local_sdp_update, event)) is None
+            try:
+                return self.ua.on_local_sdp_change(body, partial(self.ua.delayed_local_sdp_update, event)) is None
+            except SdpHandlingErrors as e:
+                self.ua.delayed_local_sdp_update(event, None, ex = e)
+                return True
         return False
 
     def _recvEventRing(self, event, eh, contacts = None):
-- 
2.43.0


From 32f3254cb329f844565e2be493853ef0138244fa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:55:48 +0000
Subject: [PATCH 047/114] fix: don't lose events held up by the RTP proxy when
 newer ones overtake them

---
 sippy/UA.py | 11 +++++++----
 1 file changed, 7 insertions(+), 4 deletions(-)

diff --git a/sippy/UA.py b/sippy/UA.py
index 549c889..32f6f39 100644
--- a/sippy/UA.py
+++ b/sippy/UA.py
@@ -32,7 +32,8 @@ from sippy.UacStateIdle import UacStateIdle
 from sippy.SipRequest import SipRequest
 from sippy.SipContentType import SipContentType
 from sippy.SipMaxForwards import SipMaxForwards
-from sippy.CCEvents import CCEventTry, CCEventFail, CCEventDisconnect, CCEventInfo, CCEventUpdate
+from sippy.CCEvents import CCEventTry, CCEventFail, CCEventDisconnect, CCEventInfo, CCEventUpdate, \
+  CCEventRing
 from sippy.MsgBody import MsgBody
 from sippy.Time.MonoTime import MonoTime
 from sippy.Time.Timeout import TimeoutAbsMono
@@ -295,9 +296,11 @@ class UA(object):
         while len(self.equeue) != 0 and self.event_cb != None:
             event = self.equeue.pop(0)
             if self.elast_seq != None and self.elast_seq >= event.seq:
-                #print('ignoring out-of-order event', event, event.seq, self.elast_seq, self.cId)
-                continue
-            self.elast_seq = event.seq
+                if isinstance(event, CCEventRing):
+                    #print('ignoring out-of-order event', event, event.seq, self.elast_seq, self.cId)
+                    continue
+            else:
+                self.elast_seq = event.seq
             self.event_cb(event, self)
 
     def genRequest(self, method, body = None, cqop = None, \
-- 
2.43.0


From 2c2b94172ce951f4fdee0314e1b2223e5195901a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:57:26 +0000
Subject: [PATCH 048/114] fix: reject re-INVITE while the offer in the 2xx has
 not been answered

---
 sippy/UaStateConnected.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/sippy/UaStateConnected.py b/sippy/UaStateConnected.py
index 0740f83..a1ca271 100644
--- a/sippy/UaStateConnected.py
+++ b/sippy/UaStateConnected.py
@@ -63,6 +63,10 @@ class UaStateConnected(UaStateGeneric):
         return None
 
     def _recvRequestInvite(self, req):
+        if self.ua.pending_tr is not None:
+            # The offer in the 2xx has not been answered yet
+            req.sendResponse(491, 'Request Pending')
+            return None
         self.ua.uasResp = req.genResponse(100, 'Trying', server = self.ua.local_ua)
         self.ua.global_config['_sip_tm'].sendResponse(self.ua.uasResp)
         body = req.getBody()
-- 
2.43.0


From 2bd62a996b376869868e48aa1a4a8291b780e7d4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:59:47 +0000
Subject: [PATCH 049/114] fix: release the whole call when the RTP proxy
 failure hits while another request is pending

---
 sippy/UA.py | 21 ++++++++++++++-------
 1 file changed, 14 insertions(+), 7 deletions(-)

diff --git a/sippy/UA.py b/sippy/UA.py
index 32f6f39..748b0e0 100644
--- a/sippy/UA.py
+++ b/sippy/UA.py
@@ -441,7 +441,7 @@ class UA(object):
                 # The dialog is going to be released, not just the request failed
                 self.equeue.append(CCEventDisconnect(rtime = fail_event.rtime, origin = self.origin))
             self.emitPendingEvents()
-            self.recvEvent(fail_event)
+            self.releaseOnFailure(fail_event)
             return
         self.rSDP = remote_sdp_body.getCopy()
         self.equeue.append(event)
@@ -454,19 +454,26 @@ class UA(object):
             if not isinstance(ex, SdpHandlingErrors): raise ex
             fail_event = CCEventFail((ex.code, ex.msg))
             fail_event.reason_rfc3326 = ex.getReason()
-            refresh_answer = isinstance(self.state, self.UasStateUpdating)
             self.equeue.append(fail_event)
-            self.emitPendingEvents()
             if isinstance(event, CCEventUpdate):
                 # Only this request has failed, the dialog is intact
+                self.emitPendingEvents()
                 return
-            self.recvEvent(fail_event)
-            if refresh_answer:
-                # The other side is released, don't leave this one alone
-                self.recvEvent(CCEventDisconnect(rtime = fail_event.rtime))
+            if self.isConnected():
+                self.equeue.append(CCEventDisconnect(rtime = fail_event.rtime, origin = self.origin))
+            self.emitPendingEvents()
+            self.releaseOnFailure(fail_event)
             return
         self.recvEvent(event)
 
+    def releaseOnFailure(self, fail_event):
+        updating = isinstance(self.state, self.UasStateUpdating)
+        self.recvEvent(fail_event)
+        if updating:
+            # Only the re-INVITE has been rejected, the other side is released
+            # though, don't leave this one alone
+            self.recvEvent(CCEventDisconnect(rtime = fail_event.rtime))
+
     def getAcct(self):
         if self.disconnect_ts != None:
             disconnect_ts = self.disconnect_ts
-- 
2.43.0


From d5e549b556cebf0e4ca53ef7ec55cc41ed6a7958 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:03:59 +0000
Subject: [PATCH 050/114] fix: don't report negative duration when media times
 out shortly after connect

---
 sippy/UA.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/sippy/UA.py b/sippy/UA.py
index 748b0e0..61f407f 100644
--- a/sippy/UA.py
+++ b/sippy/UA.py
@@ -482,7 +482,8 @@ class UA(object):
             disconnect_ts = MonoTime()
             disconnected = False
         if self.connect_ts != None:
-            return (disconnect_ts - self.connect_ts, self.connect_ts - self.setup_ts, True, disconnected)
+            # disconnect_ts could be in the past (i.e. media timeout)
+            return (max(disconnect_ts - self.connect_ts, 0), self.connect_ts - self.setup_ts, True, disconnected)
         return (0, disconnect_ts - self.setup_ts, False, disconnected)
 
     def update_ua(self, msg):
-- 
2.43.0


From d3180c16f12ed4c20ecb97a3d0f953344a2a4bd2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:04:39 +0000
Subject: [PATCH 051/114] fix: fail the call properly when no RTP proxy is
 available

---
 sippy/b2bua.py | 12 ++++++++++--
 1 file changed, 10 insertions(+), 2 deletions(-)

diff --git a/sippy/b2bua.py b/sippy/b2bua.py
index e28122a..f442475 100755
--- a/sippy/b2bua.py
+++ b/sippy/b2bua.py
@@ -56,6 +56,7 @@ from sippy.B2B.Route import B2BRoute, SRC_PROXY, SRC_WSS, DST_SIP_UA, DST_WSS_UA
 from sippy.Wss_server import Wss_server, Wss_server_opts
 from sippy.SipURL import SipURL
 from sippy.Exceptions.SdpParseError import SdpParseError
+from sippy.Exceptions.RtpProxyError import RtpProxyError
 
 from sippy.B2B.States import CCStateIdle, CCStateWaitRoute, CCStateARComplete, \
   CCStateConnected, CCStateDead, CCStateDisconnecting
@@ -185,8 +186,15 @@ class CallController(object):
                     self.cld = re_replace(self.global_config['static_tr_in'], self.cld)
                     event.data = (self.cId, self.cli, self.cld, body, auth, self.caller_name)
                 if '_rtp_proxy_clients' in self.global_config:
-                    self.rtp_proxy_session = self.rtpps_cls(self.global_config, call_id = self.cId, \
-                      notify_tag = quote('r %s' % str(self.id)))
+                    try:
+                        self.rtp_proxy_session = self.rtpps_cls(self.global_config, call_id = self.cId, \
+                          notify_tag = quote('r %s' % str(self.id)))
+                    except RtpProxyError as e:
+                        fail_event = CCEventFail((e.code, e.msg), rtime = event.rtime)
+                        fail_event.reason_rfc3326 = e.getReason()
+                        self.state = CCStateDead
+                        self.uaA.recvEvent(fail_event)
+                        return
                     self.rtp_proxy_session.callee.raddress = (self.remote_ip, 5060)
                 self.eTry = event
                 self.state = CCStateWaitRoute
-- 
2.43.0


From bf34037468fd814cb039b2425b238a13ed4aacdc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:04:39 +0000
Subject: [PATCH 052/114] fix: delete RTP proxy session re-created after media
 timeout

---
 sippy/Rtp_proxy/Session/side.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/sippy/Rtp_proxy/Session/side.py b/sippy/Rtp_proxy/Session/side.py
index 213dc55..5cf265b 100644
--- a/sippy/Rtp_proxy/Session/side.py
+++ b/sippy/Rtp_proxy/Session/side.py
@@ -68,6 +68,9 @@ class _rtpps_side(object):
     def update(self, up):
         command = 'U'
         up.rtpps.max_index = max(up.rtpps.max_index, up.index)
+        if up.rtpps.media_timeout_index == up.index:
+            # The stream is about to be (re-)created
+            up.rtpps.media_timeout_index = None
         rtpc = up.rtpps.rtp_proxy_client
         rtpq = up.rtpps.rtpp_seq
         options = up.options
-- 
2.43.0


From b7a70455f503fe0f8fe5afb26d555e605d88166d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:23:16 +0000
Subject: [PATCH 053/114] fix: keep relay heartbeats going after an unusable
 load report

---
 sippy/Rtp_proxy/client.py | 30 +++++++++++++++++-------------
 1 file changed, 17 insertions(+), 13 deletions(-)

diff --git a/sippy/Rtp_proxy/client.py b/sippy/Rtp_proxy/client.py
index 59c79fd..4842b04 100644
--- a/sippy/Rtp_proxy/client.py
+++ b/sippy/Rtp_proxy/client.py
@@ -236,19 +236,23 @@ class Rtp_proxy_client(Rtp_proxy_client_udp, Rtp_proxy_client_stream):
             self.go_offline()
         else:
             sessions_created = active_sessions = active_streams = preceived = ptransmitted = 0
-            for line in stats.splitlines():
-                line_parts = line.split(':', 1)
-                if line_parts[0] == 'sessions created':
-                    sessions_created = int(line_parts[1])
-                elif line_parts[0] == 'active sessions':
-                    active_sessions = int(line_parts[1])
-                elif line_parts[0] == 'active streams':
-                    active_streams = int(line_parts[1])
-                elif line_parts[0] == 'packets received':
-                    preceived = int(line_parts[1])
-                elif line_parts[0] == 'packets transmitted':
-                    ptransmitted = int(line_parts[1])
-                self.update_active(active_sessions, sessions_created, active_streams, preceived, ptransmitted)
+            try:
+                for line in stats.splitlines():
+                    line_parts = line.split(':', 1)
+                    if line_parts[0] == 'sessions created':
+                        sessions_created = int(line_parts[1])
+                    elif line_parts[0] == 'active sessions':
+                        active_sessions = int(line_parts[1])
+                    elif line_parts[0] == 'active streams':
+                        active_streams = int(line_parts[1])
+                    elif line_parts[0] == 'packets received':
+                        preceived = int(line_parts[1])
+                    elif line_parts[0] == 'packets transmitted':
+                        ptransmitted = int(line_parts[1])
+                    self.update_active(active_sessions, sessions_created, active_streams, preceived, ptransmitted)
+            except ValueError:
+                # Unusable report, it must not stop the heartbeats
+                pass
         to = TimeoutInact(self.heartbeat, self.hrtb_ival)
         to.spread_runs(0.1)
         to.go()
-- 
2.43.0


From 644439b0fc5128dd865cf7ce42750fa516a563c5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:27:43 +0000
Subject: [PATCH 054/114] fix: relay command options keep their meaning when
 printed back

---
 sippy/Rtp_proxy/cmd.py | 19 ++++++++++++++-----
 1 file changed, 14 insertions(+), 5 deletions(-)

diff --git a/sippy/Rtp_proxy/cmd.py b/sippy/Rtp_proxy/cmd.py
index f7b9375..f5a9407 100644
--- a/sippy/Rtp_proxy/cmd.py
+++ b/sippy/Rtp_proxy/cmd.py
@@ -39,6 +39,13 @@ def extract_to_next_token(s, match, invert = False):
         return (s, '')
     return (s[:i], s[i:])
 
+def extract_addr(s):
+    # IPv4 address or IPv6 one in square brackets
+    if s.startswith('[') and ']' in s:
+        i = s.index(']') + 1
+        return (s[:i], s[i:])
+    return extract_to_next_token(s, ('1', '2', '3', '4', '5', '6', '7', '8', '9', '0', '.'))
+
 class UpdateLookupOpts(object):
     destination_ip = None
     local_ip = None
@@ -59,12 +66,12 @@ class UpdateLookupOpts(object):
         self.otherparams = ''
         while len(s) > 0:
             if s[0] == 'R':
-                val, s = extract_to_next_token(s[1:], ('1', '2', '3', '4', '5', '6', '7', '8', '9', '0', '.'))
+                val, s = extract_addr(s[1:])
                 val = val.strip()
                 if len(val) > 0:
                     self.destination_ip = val
             elif s[0] == 'L':
-                val, s = extract_to_next_token(s[1:], ('1', '2', '3', '4', '5', '6', '7', '8', '9', '0', '.'))
+                val, s = extract_addr(s[1:])
                 val = val.strip()
                 if len(val) > 0:
                     self.local_ip = val
@@ -74,12 +81,16 @@ class UpdateLookupOpts(object):
                 if len(val) > 0:
                     self.codecs = [int(x) for x in val.split(',')]
             else:
-                val, s = extract_to_next_token(s, ('c', 'R'), True)
+                val, s = extract_to_next_token(s, ('c', 'R', 'L'), True)
                 if len(val) > 0:
                     self.otherparams += val
 
     def getstr(self, call_id, swaptags = False, skipnotify = False):
         s = ''
+        # Goes first, so that it cannot be taken for a part of an address
+        # or of a codec
+        if self.otherparams != None and len(self.otherparams) > 0:
+            s += self.otherparams
         if self.destination_ip != None:
             s += 'R%s' % (self.destination_ip,)
         if self.local_ip != None:
@@ -89,8 +100,6 @@ class UpdateLookupOpts(object):
             for codec in self.codecs:
                 s += '%s,' % (codec,)
             s = s[:-1]
-        if self.otherparams != None and len(self.otherparams) > 0:
-            s += self.otherparams
         s = '%s %s' % (s, call_id)
         if self.remote_ip != None:
             s = '%s %s' % (s, self.remote_ip)
-- 
2.43.0


From 22284e1b0aa2d296df5a5a3b1716b6cef8f94464 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:27:54 +0000
Subject: [PATCH 055/114] fix: unreadable relay answer to an update counts as
 an error

---
 sippy/Rtp_proxy/Session/update.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/sippy/Rtp_proxy/Session/update.py b/sippy/Rtp_proxy/Session/update.py
index 078841d..21dc122 100644
--- a/sippy/Rtp_proxy/Session/update.py
+++ b/sippy/Rtp_proxy/Session/update.py
@@ -47,8 +47,8 @@ class update_params():
         result = result.rstrip()
         t0 = result.split('&&', 1)
         t1 = t0[0].split()
-        if t1[0][0] == 'E':
-            ex = RtpProxyError(f'RTPProxy errored: {t1[0]}')
+        if len(t1) == 0 or t1[0][0] == 'E':
+            ex = RtpProxyError(f'RTPProxy errored: {result}')
             self.result_callback(None, self.rtpps, ex=ex)
             return
         ur = update_result()
@@ -84,7 +84,7 @@ class update_params():
                 subc_ress = subc_ress[len(subc.commands):]
                 if len(subc_ress) == 0:
                     break
-        ur.rtpproxy_port = int(t1[0])
+        ur.rtpproxy_port = int(t1[0]) if t1[0].isdigit() else 0
         if ur.rtpproxy_port == 0:
             ex = RtpProxyError(f'RTPProxy errored: bad port: {t1[0]}')
             self.result_callback(None, self.rtpps, ex=ex)
-- 
2.43.0


From 35e5aa6d28e848577eb1e28b2df175fffc53e0d0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:03:56 +0000
Subject: [PATCH 056/114] fix: a failed external command takes at most its own
 request with it

---
 sippy/External_command.py | 77 ++++++++++++++++++++++++++-------------
 1 file changed, 52 insertions(+), 25 deletions(-)

diff --git a/sippy/External_command.py b/sippy/External_command.py
index 36d40f1..6e59885 100644
--- a/sippy/External_command.py
+++ b/sippy/External_command.py
@@ -47,11 +47,7 @@ class _Worker(Thread):
         self.start()
 
     def run(self):
-        need_close_fds = True
-        if platform == 'win32':
-            need_close_fds = False
-        pipe = Popen(self.command, shell = False, stdin = PIPE, \
-          stdout = PIPE, stderr = PIPE, close_fds = need_close_fds)
+        pipe = self.spawn()
         while True:
             self.master.work_available.acquire()
             while len(self.master.work) == 0:
@@ -69,26 +65,57 @@ class _Worker(Thread):
                 wi.result_callback = None
                 wi.callback_parameters = None
                 continue
-            batch = [x.encode() + b'\n' for x in wi.data]
-            batch.append(b'\n')
-            pipe.stdin.writelines(batch)
-            pipe.stdin.flush()
-            result = []
-            while True:
-                try:
-                    line = pipe.stdout.readline().strip()
-                except IOError as e:
-                    # Catch EINTR
-                    if e.args[0] != EINTR:
-                        raise e
-                    continue
-                if len(line) == 0:
-                    break
-                result.append(line)
-            ED2.callFromThread(self.master.process_result, wi.result_callback, tuple(result), *wi.callback_parameters)
-            wi.data = None
-            wi.result_callback = None
-            wi.callback_parameters = None
+            result = None
+            try:
+                result = self.serve(pipe, wi.data)
+            except Exception:
+                dump_exception('External_command: unhandled exception when talking to the external command')
+            if result == None:
+                # The command has died or failed, it only takes the request it
+                # has been working on with it
+                result = ()
+                pipe = self.spawn()
+            ED2.callFromThread(self.deliver, wi, result)
+
+    def spawn(self):
+        need_close_fds = True
+        if platform == 'win32':
+            need_close_fds = False
+        try:
+            return Popen(self.command, shell = False, stdin = PIPE, \
+              stdout = PIPE, stderr = PIPE, close_fds = need_close_fds)
+        except Exception:
+            dump_exception('External_command: unable to start the external command')
+        return None
+
+    def serve(self, pipe, data):
+        batch = [x.encode() + b'\n' for x in data]
+        batch.append(b'\n')
+        pipe.stdin.writelines(batch)
+        pipe.stdin.flush()
+        result = []
+        while True:
+            try:
+                line = pipe.stdout.readline()
+            except IOError as e:
+                # Catch EINTR
+                if e.args[0] != EINTR:
+                    raise e
+                continue
+            if len(line) == 0:
+                return None
+            line = line.strip()
+            if len(line) == 0:
+                break
+            result.append(line)
+        return tuple(result)
+
+    def deliver(self, wi, result):
+        if not wi.is_cancelled():
+            self.master.process_result(wi.result_callback, result, *wi.callback_parameters)
+        wi.data = None
+        wi.result_callback = None
+        wi.callback_parameters = None
 
 class Work_item(object):
     cancelled = False
-- 
2.43.0


From 4595f49cf4988a88b9061bb5501636bdfcb11e5d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:05:30 +0000
Subject: [PATCH 057/114] fix: log to file systems that know no locks also
 where ENOTSUP is not 45

---
 sippy/SipLogger.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/sippy/SipLogger.py b/sippy/SipLogger.py
index f850ddb..97ef6f2 100644
--- a/sippy/SipLogger.py
+++ b/sippy/SipLogger.py
@@ -28,6 +28,7 @@ from sippy.Signal import LogSignal
 from time import time, localtime, strftime
 from fcntl import flock, LOCK_EX, LOCK_UN
 from signal import SIGUSR1
+from errno import ENOTSUP
 from threading import Thread, Condition
 
 import sys, os, syslog
@@ -77,7 +78,7 @@ class AsyncLogger(Thread):
             my_flock(self.log, LOCK_EX)
         except IOError as e:
             # Catch ENOTSUP
-            if e.args[0] != 45:
+            if e.args[0] not in (45, ENOTSUP):
                 raise e
             my_flock = lambda x, y: None
         try:
-- 
2.43.0


From c02f4250e26bd114a4b49c885dc0844a02c8e147 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:06:44 +0000
Subject: [PATCH 058/114] fix: set the log file name before starting the log
 writer

---
 sippy/SipLogger.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/sippy/SipLogger.py b/sippy/SipLogger.py
index 97ef6f2..12949f0 100644
--- a/sippy/SipLogger.py
+++ b/sippy/SipLogger.py
@@ -155,8 +155,8 @@ class SipLogger(object):
             self.wi_available = Condition()
             self.wi = []
             if bend != 'syslog':
-                self.logger = AsyncLogger(app, self)
                 self.logfile = os.environ.get('SIPLOG_LOGFILE_FILE', logfile)
+                self.logger = AsyncLogger(app, self)
                 self.signal_handler = LogSignal(self, SIGUSR1, self.reopen)
             else:
                 self.logger = AsyncLoggerSyslog(app, self)
-- 
2.43.0


From 7d6b5111abf982c4e142738985ade0be850b8d90 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:16:42 +0000
Subject: [PATCH 059/114] fix: do not run signal handlers in a loop that has
 been told to end

---
 sippy/Core/EventDispatcher.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/sippy/Core/EventDispatcher.py b/sippy/Core/EventDispatcher.py
index 8900445..5c688f5 100644
--- a/sippy/Core/EventDispatcher.py
+++ b/sippy/Core/EventDispatcher.py
@@ -280,7 +280,7 @@ class EventDispatcher2(Singleton):
         self.last_ts = MonoTime()
         etime = None if timeout is None else self.last_ts.getOffsetCopy(timeout)
         while True:
-            if len(self.signals_pending) > 0:
+            if not self.endloop and len(self.signals_pending) > 0:
                 self.dispatchSignals()
             if self.endloop:
                 break
-- 
2.43.0


From eab4f975d099bfbd7e1a9a64cccf0d8fd42b7f43 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:19:30 +0000
Subject: [PATCH 060/114] fix: refuse nonces with junk characters added, or
 missing

---
 sippy/Security/SipNonce.py | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/sippy/Security/SipNonce.py b/sippy/Security/SipNonce.py
index 75cdffe..ba13e59 100644
--- a/sippy/Security/SipNonce.py
+++ b/sippy/Security/SipNonce.py
@@ -62,7 +62,11 @@ class AESCipher(object):
         return b64encode(eraw).rstrip(b'=')
 
     def decrypt(self, enc):
-        enc = b64decode(enc + (b'=' * (-len(enc) % 4)))
+        benc = enc
+        enc = b64decode(benc + (b'=' * (-len(benc) % 4)))
+        if b64encode(enc).rstrip(b'=') != benc:
+            # b64decode() skips over anything outside of its alphabet
+            raise ValueError
         data = enc[:-MAC_SIZE]
         tag = enc[-MAC_SIZE:]
         ctag = hmac_new(self.mac_key, data, 'sha256').digest()[:MAC_SIZE]
@@ -99,6 +103,8 @@ class HashOracle(object):
         return cryptic.decode()
 
     def validate_challenge(self, cryptic, cmask):
+        if cryptic is None:
+            return False
         new_ts = clock_getntime(CLOCK_MONOTONIC)
         try:
             decryptic = from_bytes_be(self.ac.decrypt(cryptic.encode()))
-- 
2.43.0


From e59e8fb4e9ea580ce6dfb5807a6fb9ea4210ba70 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:35:39 +0000
Subject: [PATCH 061/114] fix: digests with missing fields or unknown algorithm
 do not verify, instead of raising

---
 sippy/SipAuthorization.py | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/sippy/SipAuthorization.py b/sippy/SipAuthorization.py
index 530b140..b5cf951 100644
--- a/sippy/SipAuthorization.py
+++ b/sippy/SipAuthorization.py
@@ -134,6 +134,10 @@ class SipAuthorization(SipGenericHF):
     def verify(self, password, method, body = None):
         if not self.parsed:
             self.parse()
+        if self.algorithm not in _HASH_FUNC or None in (self.username, self.realm, self.nonce):
+            return False
+        if self.cnonce is None and self.algorithm is not None and self.algorithm.endswith('-sess'):
+            return False
         HA1 = DigestCalcHA1(self.algorithm, self.username, self.realm, password, self.nonce, self.cnonce)
         return self.verifyHA1(HA1, method, body)
 
@@ -144,6 +148,8 @@ class SipAuthorization(SipGenericHF):
             return False
         if self.qop != None and self.qop not in ('auth', 'auth-int'):
             return False
+        if None in (self.nonce, self.uri):
+            return False
         algmask = _HASH_FUNC[self.algorithm][1]
         if not self.ho.validate_challenge(self.nonce, (algmask,)):
             return False
-- 
2.43.0


From ca55a12485494eda13fa09dbfaedd7ce7106bb7a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:38:14 +0000
Subject: [PATCH 062/114] fix: refuse routes with a malformed destination or
 group time-out when they are read

---
 sippy/B2B/Route.py | 17 ++++++++++++-----
 1 file changed, 12 insertions(+), 5 deletions(-)

diff --git a/sippy/B2B/Route.py b/sippy/B2B/Route.py
index d77ccfb..3ec2a5b 100644
--- a/sippy/B2B/Route.py
+++ b/sippy/B2B/Route.py
@@ -138,17 +138,20 @@ class B2BRoute(object):
             self.hostonly = hostport[0]
         else:
             hostport = self.hostport[1:].split(']', 1)
-            if len(hostport) > 1:
-                if len(hostport[1]) == 0:
-                    del hostport[1]
-                else:
-                    hostport[1] = hostport[1][1:]
+            if len(hostport) != 2 or hostport[1][:1] not in ('', ':'):
+                raise ValueError(f'B2BRoute: malformed destination `{self.hostport}`')
+            if len(hostport[1]) == 0:
+                del hostport[1]
+            else:
+                hostport[1] = hostport[1][1:]
             af = AF_INET6
             self.hostonly = '[%s]' % hostport[0]
         if len(hostport) == 1:
             port = SipConf.default_port
         else:
             port = int(hostport[1])
+            if not 0 < port < 65536:
+                raise ValueError(f'B2BRoute: port out of range in `{self.hostport}`')
         if not hostport[0] in (DST_SIP_UA, DST_WSS_UA):
             self.ainfo = getaddrinfo(hostport[0], port, af, SOCK_STREAM)
         self.params = {}
@@ -199,6 +202,10 @@ class B2BRoute(object):
                     self.params['outbound_proxy'] = (v, 5060)
                 else:
                     self.params['outbound_proxy'] = (host_port[0], int(host_port[1]))
+            elif a == 'gt':
+                # Validate early, customize() makes use of it
+                timeout, skip = [int(x) for x in v.split(',', 1)]
+                self.params['gt'] = v
             elif a == 'po_proc':
                 self.params['po_proc'] = getTransProc(v)
             else:
-- 
2.43.0


From 0701a7e0645e9c28c0028905f0635141ec04a78c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:42:47 +0000
Subject: [PATCH 063/114] fix: read configuration files with Python 3.12, which
 has no readfp() any more

---
 sippy/MyConfigParser.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/sippy/MyConfigParser.py b/sippy/MyConfigParser.py
index df9dc61..ee2a815 100644
--- a/sippy/MyConfigParser.py
+++ b/sippy/MyConfigParser.py
@@ -161,7 +161,9 @@ class MyConfigParser(RawConfigParser):
         return tuple([x + '=' for x in SUPPORTED_OPTIONS.keys()])
 
     def read(self, fname):
-        RawConfigParser.readfp(self, open(fname))
+        with open(fname) as f:
+            # readfp() is no more in Python 3.12
+            RawConfigParser.read_file(self, f)
         for key in tuple(self.options(self._default_section)):
             self.check_and_set(key, RawConfigParser.get(self, \
               self._default_section, key), False)
-- 
2.43.0


From dca3fa1ee8523fe7e30191a4a409abb5b0977b01 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:42:48 +0000
Subject: [PATCH 064/114] fix: -k 0 disables keep-alives enabled in the
 configuration file

---
 sippy/b2bua.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/sippy/b2bua.py b/sippy/b2bua.py
index f442475..55ab067 100755
--- a/sippy/b2bua.py
+++ b/sippy/b2bua.py
@@ -718,7 +718,8 @@ def main_func():
         if o == '-k':
             ka_level = int(a.strip())
             if ka_level == 0:
-                pass
+                global_config['keepalive_ans'] = 0
+                global_config['keepalive_orig'] = 0
             elif ka_level == 1:
                 global_config['keepalive_ans'] = 32
             elif ka_level == 2:
-- 
2.43.0


From db59956dcf34b69578f36d77c8a202c2c920e3d0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:42:48 +0000
Subject: [PATCH 065/114] fix: do not start the management UI with --ui=off

---
 sippy/b2bua.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/sippy/b2bua.py b/sippy/b2bua.py
index 55ab067..bf219c3 100755
--- a/sippy/b2bua.py
+++ b/sippy/b2bua.py
@@ -831,7 +831,7 @@ def main_func():
     global_config['_sip_tm'] = stm
     global_config['_sip_tm'].nat_traversal = global_config.getdefault('nat_traversal', False)
 
-    if 'ui' in global_config:
+    if global_config.getdefault('ui', False):
         from sippy.UI.Controller import UIController
         global_config['_ui_controller'] = UIController(global_config)
 
-- 
2.43.0


From 3089062b879c9d7ce958978046ac67ec3206cc7d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:48:06 +0000
Subject: [PATCH 066/114] fix: keep repeated e=, p=, b=, t= and r= lines of
 session descriptions

---
 sippy/SdpBody.py             | 68 +++++++++++++++++++-----------------
 sippy/SdpMediaDescription.py | 20 ++++++++---
 2 files changed, 51 insertions(+), 37 deletions(-)

diff --git a/sippy/SdpBody.py b/sippy/SdpBody.py
index 7c3dd32..f2bb5e4 100644
--- a/sippy/SdpBody.py
+++ b/sippy/SdpBody.py
@@ -50,6 +50,8 @@ class SdpBody(object):
     z_header = None
     k_header = None
     a_headers = None
+    # Repeated lines, listed under the name of the line they follow
+    more_headers = None
     first_half = ('v', 'o', 's', 'i', 'u', 'e', 'p')
     second_half = ('b', 't', 'r', 'z', 'k')
     all_headers = ('v', 'o', 's', 'i', 'u', 'e', 'p', 'c', 'b', 't', 'r', 'z', 'k')
@@ -65,9 +67,11 @@ class SdpBody(object):
                 except AttributeError:
                     pass
             self.a_headers = [x.getCopy() for x in cself.a_headers]
+            self.more_headers = dict((n, l[:]) for n, l in cself.more_headers.items())
             self.sections = [x.getCopy() for x in cself.sections]
             return
         self.a_headers = []
+        self.more_headers = {}
         self.sections = []
         if body is None:
             return
@@ -82,10 +86,8 @@ class SdpBody(object):
             if current_snum == 0:
                 if name == 'c':
                     c_header = v
-                elif name == 'a':
-                    self.a_headers.append(a_header(v))
                 else:
-                    setattr(self, name + '_header', f_types[name](v))
+                    self.addHeader(name, v)
             else:
                 self.sections[-1].addHeader(name, v)
         if c_header != None:
@@ -107,14 +109,12 @@ class SdpBody(object):
         s = ''
         if len(self.sections) == 1 and self.sections[0].c_header != None:
             for name in self.first_half:
-                header = getattr(self, name + '_header')
-                if header != None:
-                    s += '%s=%s\r\n' % (name, str(header))
+                for rname, header in self.getLines(name):
+                    s += '%s=%s\r\n' % (rname, str(header))
             s += 'c=%s\r\n' % str(self.sections[0].c_header)
             for name in self.second_half:
-                header = getattr(self, name + '_header')
-                if header != None:
-                    s += '%s=%s\r\n' % (name, str(header))
+                for rname, header in self.getLines(name):
+                    s += '%s=%s\r\n' % (rname, str(header))
             for header in self.a_headers:
                 s += 'a=%s\r\n' % str(header)
             s += self.sections[0].localStr(noC = True)
@@ -132,19 +132,16 @@ class SdpBody(object):
             sections_0_str = str(self.sections[0].c_header)
         if optimize_c_headers:
             for name in self.first_half:
-                header = getattr(self, name + '_header')
-                if header != None:
-                    s += '%s=%s\r\n' % (name, str(header))
+                for rname, header in self.getLines(name):
+                    s += '%s=%s\r\n' % (rname, str(header))
             s += 'c=%s\r\n' % sections_0_str
             for name in self.second_half:
-                header = getattr(self, name + '_header')
-                if header != None:
-                    s += '%s=%s\r\n' % (name, str(header))
+                for rname, header in self.getLines(name):
+                    s += '%s=%s\r\n' % (rname, str(header))
         else:
             for name in self.all_headers:
-                header = getattr(self, name + '_header')
-                if header != None:
-                    s += '%s=%s\r\n' % (name, str(header))
+                for rname, header in self.getLines(name):
+                    s += '%s=%s\r\n' % (rname, str(header))
         for header in self.a_headers:
             s += 'a=%s\r\n' % str(header)
         for section in self.sections:
@@ -159,14 +156,12 @@ class SdpBody(object):
         s = ''
         if len(self.sections) == 1 and self.sections[0].c_header != None:
             for name in self.first_half:
-                header = getattr(self, name + '_header')
-                if header != None:
-                    s += '%s=%s\r\n' % (name, header.localStr(local_addr))
+                for rname, header in self.getLines(name):
+                    s += '%s=%s\r\n' % (rname, header.localStr(local_addr))
             s += 'c=%s\r\n' % self.sections[0].c_header.localStr(local_addr)
             for name in self.second_half:
-                header = getattr(self, name + '_header')
-                if header != None:
-                    s += '%s=%s\r\n' % (name, header.localStr(local_addr))
+                for rname, header in self.getLines(name):
+                    s += '%s=%s\r\n' % (rname, header.localStr(local_addr))
             for header in self.a_headers:
                 s += 'a=%s\r\n' % str(header)
             s += self.sections[0].localStr(local_addr, noC = True)
@@ -184,19 +179,16 @@ class SdpBody(object):
             sections_0_str = self.sections[0].c_header.localStr(local_addr)
         if optimize_c_headers:
             for name in self.first_half:
-                header = getattr(self, name + '_header')
-                if header != None:
-                    s += '%s=%s\r\n' % (name, header.localStr(local_addr))
+                for rname, header in self.getLines(name):
+                    s += '%s=%s\r\n' % (rname, header.localStr(local_addr))
             s += 'c=%s\r\n' % sections_0_str
             for name in self.second_half:
-                header = getattr(self, name + '_header')
-                if header != None:
-                    s += '%s=%s\r\n' % (name, header.localStr(local_addr))
+                for rname, header in self.getLines(name):
+                    s += '%s=%s\r\n' % (rname, header.localStr(local_addr))
         else:
             for name in self.all_headers:
-                header = getattr(self, name + '_header')
-                if header != None:
-                    s += '%s=%s\r\n' % (name, header.localStr(local_addr))
+                for rname, header in self.getLines(name):
+                    s += '%s=%s\r\n' % (rname, header.localStr(local_addr))
         for header in self.a_headers:
             s += 'a=%s\r\n' % str(header)
         for section in self.sections:
@@ -220,5 +212,15 @@ class SdpBody(object):
     def addHeader(self, name, header):
         if name == 'a':
             self.a_headers.append(a_header(header))
+        elif name in ('t', 'r') and ('r' in self.more_headers or getattr(self, name + '_header') != None):
+            # Any r= applies to the t= it follows
+            self.more_headers.setdefault('r', []).append((name, f_types[name](header)))
+        elif name in ('e', 'p', 'b') and getattr(self, name + '_header') != None:
+            self.more_headers.setdefault(name, []).append((name, f_types[name](header)))
         else:
             setattr(self, name + '_header', f_types[name](header))
+
+    def getLines(self, name):
+        header = getattr(self, name + '_header')
+        lines = [(name, header)] if header != None else []
+        return lines + self.more_headers.get(name, [])
diff --git a/sippy/SdpMediaDescription.py b/sippy/SdpMediaDescription.py
index d47b4e4..57914b5 100644
--- a/sippy/SdpMediaDescription.py
+++ b/sippy/SdpMediaDescription.py
@@ -60,6 +60,8 @@ class SdpMediaDescription(object):
     b_header = None
     k_header = None
     a_headers = None
+    # b= lines following the first one
+    more_b_headers = None
     all_headers = ('m', 'i', 'c', 'b', 'k')
     needs_update = True
 
@@ -71,14 +73,15 @@ class SdpMediaDescription(object):
                 except AttributeError:
                     pass
             self.a_headers = [x.getCopy() for x in cself.a_headers]
+            self.more_b_headers = cself.more_b_headers[:]
             return
         self.a_headers = []
+        self.more_b_headers = []
 
     def __str__(self):
         s = ''
         for name in self.all_headers:
-            header = getattr(self, name + '_header')
-            if header != None:
+            for header in self.getLines(name):
                 s += '%s=%s\r\n' % (name, str(header))
         for header in self.a_headers:
             s += 'a=%s\r\n' % str(header)
@@ -89,8 +92,7 @@ class SdpMediaDescription(object):
         for name in self.all_headers:
             if noC and name == 'c':
                 continue
-            header = getattr(self, name + '_header')
-            if header != None:
+            for header in self.getLines(name):
                 s += '%s=%s\r\n' % (name, header.localStr(local_addr))
         for header in self.a_headers:
             s += 'a=%s\r\n' % str(header)
@@ -106,9 +108,19 @@ class SdpMediaDescription(object):
     def addHeader(self, name, header):
         if name == 'a':
             self.a_headers.append(a_header(header))
+        elif name == 'b' and self.b_header != None:
+            self.more_b_headers.append(f_types[name](header))
         else:
             setattr(self, name + '_header', f_types[name](header))
 
+    def getLines(self, name):
+        header = getattr(self, name + '_header')
+        if header == None:
+            return []
+        if name == 'b':
+            return [header] + self.more_b_headers
+        return [header]
+
     def insertHeader(self, indx, name, header):
         assert(name == 'a')
         self.a_headers.insert(indx, a_header(header))
-- 
2.43.0


From aee2feeb577ba092fd78620c8a46f7c7db8bb2b7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:48:06 +0000
Subject: [PATCH 067/114] fix: accept number of ports and non-numeric formats
 in m= lines

---
 sippy/SdpMedia.py | 22 +++++++++++++---------
 1 file changed, 13 insertions(+), 9 deletions(-)

diff --git a/sippy/SdpMedia.py b/sippy/SdpMedia.py
index 2c386ae..befb0ea 100644
--- a/sippy/SdpMedia.py
+++ b/sippy/SdpMedia.py
@@ -37,6 +37,7 @@ class SdpMedia(object):
     type = None
     stype = None
     port = None
+    nports = None
     transport = None
     formats = None
 
@@ -51,27 +52,30 @@ class SdpMedia(object):
                 self.type = MTVideo
             else:
                 self.type = MTOther
-            self.port = int(params[1])
+            port, _, nports = params[1].partition('/')
+            self.port = int(port)
+            if len(nports) > 0:
+                self.nports = int(nports)
             self.transport = params[2]
             if self.type in (MTAudio, MTVideo):
-                self.formats = [int(x) for x in params[3:]]
+                self.formats = [int(x) if x.isdigit() else x for x in params[3:]]
             else:
                 self.formats = params[3:]
         else:
             self.type = cself.type
             self.stype = cself.stype
             self.port = cself.port
+            self.nports = cself.nports
             self.transport = cself.transport
             self.formats = cself.formats[:]
 
     def __str__(self):
-        rval = '%s %d %s' % (self.stype, self.port, self.transport)
-        if self.type in (MTAudio, MTVideo):
-            for format in self.formats:
-                rval += ' %d' % format
-        else:
-            for format in self.formats:
-                rval += ' %s' % format
+        rval = '%s %d' % (self.stype, self.port)
+        if self.nports is not None:
+            rval += '/%d' % self.nports
+        rval += ' %s' % self.transport
+        for format in self.formats:
+            rval += ' %s' % format
         return rval
 
     def localStr(self, local_addr = None):
-- 
2.43.0


From 0169de6cd1160e7b539291db1dba082494f048ef Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:48:26 +0000
Subject: [PATCH 068/114] fix: only CR and LF end a line of a session
 description

---
 sippy/SdpBody.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/sippy/SdpBody.py b/sippy/SdpBody.py
index f2bb5e4..75632e7 100644
--- a/sippy/SdpBody.py
+++ b/sippy/SdpBody.py
@@ -75,7 +75,9 @@ class SdpBody(object):
         self.sections = []
         if body is None:
             return
-        avpairs = [x.split('=', 1) for x in body.strip().splitlines() if len(x.strip()) > 0]
+        # Only CR and LF end a line, str.splitlines() knows of more
+        lines = body.lstrip().replace('\r', '\n').split('\n')
+        avpairs = [x.split('=', 1) for x in lines if len(x.strip()) > 0]
         current_snum = 0
         c_header = None
         for name, v in avpairs:
-- 
2.43.0


From 89e5d9e4a1aa3e083ce6ed15dc057731aa422168 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:48:26 +0000
Subject: [PATCH 069/114] fix: keep attributes of offered formats in media
 other than audio and video

---
 sippy/SdpMediaDescription.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/sippy/SdpMediaDescription.py b/sippy/SdpMediaDescription.py
index 57914b5..172c92c 100644
--- a/sippy/SdpMediaDescription.py
+++ b/sippy/SdpMediaDescription.py
@@ -138,7 +138,8 @@ class SdpMediaDescription(object):
                 pt = int(ah.value.split(' ', 1)[0])
             except ValueError:
                 continue
-            if pt in self.m_header.formats:
+            # Formats of media other than audio and video are kept as strings
+            if pt in self.m_header.formats or str(pt) in self.m_header.formats:
                 continue
             self.a_headers.remove(ah)
 
-- 
2.43.0


From 785fc542e1238287b83abd2a1452c6da5fe56def Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:10:41 +0000
Subject: [PATCH 070/114] fix: Content-Length is in octets; only CR and LF end
 a line of a message

---
 sippy/SipMsg.py | 14 ++++++++------
 1 file changed, 8 insertions(+), 6 deletions(-)

diff --git a/sippy/SipMsg.py b/sippy/SipMsg.py
index 246b9ba..0ca7e31 100644
--- a/sippy/SipMsg.py
+++ b/sippy/SipMsg.py
@@ -57,7 +57,8 @@ class SipMsg(object):
                     self.__mbody = None
                 break
         # Split message into lines and put aside start line
-        lines = buf.splitlines()
+        # Only CR and LF end a line, str.splitlines() knows of more
+        lines = buf.replace('\r\n', '\n').replace('\r', '\n').split('\n')
         self.setSL(lines[0])
         i = 2
         while i < len(lines):
@@ -107,7 +108,8 @@ class SipMsg(object):
             if self.__mbody == None:
                 mblen = 0
             else:
-                mblen = len(self.__mbody)
+                # The length is given in octets
+                mblen = len(self.__mbody.encode())
             if blen == 0:
                 self.__mbody = None
                 mblen = 0
@@ -141,7 +143,7 @@ class SipMsg(object):
                     # happens with request
                     raise SipParseError('Truncated SIP body, %d bytes expected, %d received' % (blen, mblen))
             elif blen < mblen:
-                self.__mbody = self.__mbody[:blen]
+                self.__mbody = self.__mbody.encode()[:blen].decode(errors = 'replace')
                 mblen = blen
         if self.__mbody != None:
             if self.__content_type != None:
@@ -156,7 +158,7 @@ class SipMsg(object):
         if self.body is not None:
             mbody = str(self.body)
             s += 'Content-Type: %s\r\n' % self.body.mtype
-            s += 'Content-Length: %d\r\n\r\n' % len(mbody)
+            s += 'Content-Length: %d\r\n\r\n' % len(mbody.encode())
             s += mbody
         else:
             s += 'Content-Length: 0\r\n\r\n'
@@ -170,10 +172,10 @@ class SipMsg(object):
             mbody = self.body.localStr(local_addr)
             if compact:
                 s += 'c: %s\r\n' % self.body.mtype
-                s += 'l: %d\r\n\r\n' % len(mbody)
+                s += 'l: %d\r\n\r\n' % len(mbody.encode())
             else:
                 s += 'Content-Type: %s\r\n' % self.body.mtype
-                s += 'Content-Length: %d\r\n\r\n' % len(mbody)
+                s += 'Content-Length: %d\r\n\r\n' % len(mbody.encode())
             s += mbody
         else:
             if compact:
-- 
2.43.0


From fdd03be2d364ae8374d2f0519b59de5d76ee3834 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:10:41 +0000
Subject: [PATCH 071/114] fix: a copy of a URI keeps its scheme and has headers
 of its own

---
 sippy/SipURL.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/sippy/SipURL.py b/sippy/SipURL.py
index 6c0ecfd..d80347f 100644
--- a/sippy/SipURL.py
+++ b/sippy/SipURL.py
@@ -291,9 +291,9 @@ class SipURL(object):
 
     def getCopy(self):
         return SipURL(username = self.username, password = self.password, host = self.host, port = self.port, \
-          headers = self.headers, usertype = self.usertype, transport = self.transport, ttl = self.ttl, \
+          headers = self.headers.copy() if self.headers != None else None, usertype = self.usertype, transport = self.transport, ttl = self.ttl, \
           maddr = self.maddr, method = self.method, tag = self.tag, other = list(self.other), \
-          userparams = list(self.userparams), lr = self.lr)
+          userparams = list(self.userparams), lr = self.lr, scheme = self.scheme)
 
     def getHost(self):
         return self.host
-- 
2.43.0


From e035b0551f4b41f05fd31917167cab9fa9025839 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:10:41 +0000
Subject: [PATCH 072/114] fix: quotes, escapes, white space, sips: and
 comma-joined lists in name-addr headers

---
 sippy/SipAddress.py   | 38 +++++++++++++++-----------------------
 sippy/SipAddressHF.py | 25 +++++--------------------
 sippy/SipGenericHF.py | 31 +++++++++++++++++++++++++++++++
 3 files changed, 51 insertions(+), 43 deletions(-)

diff --git a/sippy/SipAddress.py b/sippy/SipAddress.py
index 866f01d..51fabf3 100644
--- a/sippy/SipAddress.py
+++ b/sippy/SipAddress.py
@@ -25,12 +25,16 @@
 # SOFTWARE, EVEN IF ADVISED OF THE POSSIBILITY OF SUCH DAMAGE.
 
 from sippy.SipURL import SipURL
+from sippy.SipGenericHF import split_params, escape_quotes
+import re
 try:
     from string import maketrans
     needquotes = lambda x, y: not x.encode().translate(y).isalnum()
 except ImportError:
     maketrans = str.maketrans
-    needquotes = lambda x, y: not x.translate(y).isalnum()
+    needquotes = lambda x, y: not (x.isascii() and x.translate(y).isalnum())
+
+quoted_name = re.compile(r'"((?:[^"\\]|\\.)*)"\s*<(.*)$', re.DOTALL)
 
 def findquotes(s, pos = 1):
     rval = []
@@ -66,27 +70,23 @@ class SipAddress(object):
             if hadbrace != None:
                 self.hadbrace = hadbrace
             return
+        address = address.strip()
         # simple 'sip:foo' case
-        if address.lower().startswith('sip:') and address.find('<') == -1:
+        if address.lower().startswith(('sip:', 'sips:', 'tel:')) and address.find('<') == -1:
             parts = address.split(';', 1)
-            self.url = SipURL(parts[0], relaxedparser = relaxedparser)
+            self.url = SipURL(parts[0].strip(), relaxedparser = relaxedparser)
             if len(parts) == 2:
-                for l in parts[1].split(';'):
-                    if not l:
-                        continue
-                    k_v = l.split('=', 1)
-                    if len(k_v) == 2:
-                        k, v = k_v
-                    else:
-                        k = k_v[0]
-                        v = None
+                for k, v in split_params(parts[1]):
                     self.params[k] = v
                     if self.params_order.count(k) > 0:
                         self.params_order.remove(k)
                     self.params_order.append(k)
             self.hadbrace = False
             return
-        if address.startswith('"'):
+        qname = quoted_name.match(address)
+        if qname is not None:
+            self.name, url = qname.groups()
+        elif address.startswith('"'):
             qpos = findquotes(address)
             url = None
             if len(qpos) == 1:
@@ -112,15 +112,7 @@ class SipAddress(object):
         self.url = SipURL(url, relaxedparser = relaxedparser)
         paramstring = paramstring.strip()
         if paramstring:
-            for l in paramstring.split(';'):
-                if not l:
-                    continue
-                k_v = l.split('=', 1)
-                if len(k_v) == 2:
-                    k, v = k_v
-                else:
-                    k = k_v[0]
-                    v = None
+            for k, v in split_params(paramstring):
                 self.params[k] = v
                 if self.params_order.count(k) > 0:
                     self.params_order.remove(k)
@@ -139,7 +131,7 @@ class SipAddress(object):
         s = ''
         if self.name != None and len(self.name) > 0:
             if needquotes(self.name, self.transtable):
-                s += '"%s" ' % self.name
+                s += '"%s" ' % escape_quotes(self.name)
             else:
                 s += self.name + ' '
             od = '<'
diff --git a/sippy/SipAddressHF.py b/sippy/SipAddressHF.py
index fa17d9b..2a7b3fc 100644
--- a/sippy/SipAddressHF.py
+++ b/sippy/SipAddressHF.py
@@ -24,7 +24,7 @@
 # (INCLUDING NEGLIGENCE OR OTHERWISE) ARISING IN ANY WAY OUT OF THE USE OF THIS
 # SOFTWARE, EVEN IF ADVISED OF THE POSSIBILITY OF SUCH DAMAGE.
 
-from sippy.SipGenericHF import SipGenericHF
+from sippy.SipGenericHF import SipGenericHF, split_unquoted
 from sippy.SipAddress import SipAddress
 from sippy.ESipHeaderCSV import ESipHeaderCSV
 
@@ -35,25 +35,10 @@ class SipAddressHF(SipGenericHF):
     def __init__(self, body = None, address = None):
         SipGenericHF.__init__(self, body)
         if body is not None:
-            csvs = []
-            pidx = 0
-            while 1:
-                idx = body.find(',', pidx)
-                if idx == -1:
-                    break
-                onum = body[:idx].count('<')
-                cnum = body[:idx].count('>')
-                qnum = body[:idx].count('"')
-                if (onum == 0 and cnum == 0 and qnum == 0) or (onum > 0 and \
-                  onum == cnum and (qnum % 2 == 0)):
-                    csvs.append(body[:idx])
-                    body = body[idx + 1:]
-                    pidx = 0
-                else:
-                    pidx = idx + 1
-            if (len(csvs) > 0):
-                csvs.append(body)
-                raise ESipHeaderCSV(None, csvs)
+            if ',' in body:
+                csvs = [x.strip() for x in split_unquoted(body, ',', brackets = True)]
+                if len(csvs) > 1:
+                    raise ESipHeaderCSV(None, csvs)
         else:
             self.parsed = True
             self.address = address
diff --git a/sippy/SipGenericHF.py b/sippy/SipGenericHF.py
index 7be1523..5ca7163 100644
--- a/sippy/SipGenericHF.py
+++ b/sippy/SipGenericHF.py
@@ -24,6 +24,37 @@
 # (INCLUDING NEGLIGENCE OR OTHERWISE) ARISING IN ANY WAY OUT OF THE USE OF THIS
 # SOFTWARE, EVEN IF ADVISED OF THE POSSIBILITY OF SUCH DAMAGE.
 
+import re
+
+_tokens = re.compile(r'"(?:[^"\\]|\\.)*"|.', re.DOTALL)
+_tokens_br = re.compile(r'"(?:[^"\\]|\\.)*"|<[^>]*>|.', re.DOTALL)
+_toescape = re.compile(r'\\.|["\\]', re.DOTALL)
+
+def split_unquoted(s, sep, brackets = False):
+    """Split at the separators that are not inside of a quoted string or, optionally, angle brackets"""
+    if '"' not in s and not brackets:
+        return s.split(sep)
+    parts = [[]]
+    for token in (_tokens_br if brackets else _tokens).findall(s):
+        if token == sep:
+            parts.append([])
+        else:
+            parts[-1].append(token)
+    return [''.join(p) for p in parts]
+
+def split_params(s):
+    """Split ;name1=value1;name2 into (name, value) pairs, the value is None when there is no '='"""
+    params = []
+    for param in split_unquoted(s, ';'):
+        name, eq, value = param.partition('=')
+        if len(name.strip()) > 0:
+            params.append((name.strip(), value.strip() if eq else None))
+    return params
+
+def escape_quotes(s):
+    """Escape what would end a quoted string too early, unless it is escaped already"""
+    return _toescape.sub(lambda m: m.group() if len(m.group()) == 2 else '\\' + m.group(), s)
+
 class SipGenericHF(object):
     hf_names = None	# Set this in each subclass!!
     body = None
-- 
2.43.0


From 6cd62ab94861371b11352e142f7438647e0070db Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:11:39 +0000
Subject: [PATCH 073/114] fix: white space and quoted strings in Via headers

---
 sippy/SipVia.py | 25 ++++++++++++-------------
 1 file changed, 12 insertions(+), 13 deletions(-)

diff --git a/sippy/SipVia.py b/sippy/SipVia.py
index 0ae9f10..02cce9e 100644
--- a/sippy/SipVia.py
+++ b/sippy/SipVia.py
@@ -26,7 +26,7 @@
 
 from random import random
 from secrets import token_hex
-from sippy.SipGenericHF import SipGenericHF
+from sippy.SipGenericHF import SipGenericHF, split_unquoted, split_params
 from sippy.SipConf import SipConf
 from sippy.ESipHeaderCSV import ESipHeaderCSV
 
@@ -41,7 +41,9 @@ class SipVia(SipGenericHF):
 
     def __init__(self, body = None, cself = None):
         if body is not None and body.find(',') > -1:
-            raise ESipHeaderCSV(None, body.split(','))
+            bodys = [x.strip() for x in split_unquoted(body, ',')]
+            if len(bodys) > 1:
+                raise ESipHeaderCSV(None, bodys)
         SipGenericHF.__init__(self, body)
         if body is not None:
             assert cself is None
@@ -59,23 +61,20 @@ class SipVia(SipGenericHF):
 
     def parse(self):
         self.params = {}
-        parts, hostname = self.body.split(None, 1)
-        self.sipver, self.transport = (p:=parts.rsplit('/', 1))[0].rstrip(), p[1].lstrip()
-        hcomps = [x.strip() for x in hostname.split(';')]
-        for param in hcomps[1:]:
-            sparam = param.split('=', 1)
-            if len(sparam) == 1:
-                val = None
-            else:
-                val = sparam[1]
-            self.params[sparam[0]] = val
+        proto, version, rest = self.body.split('/', 2)
+        self.sipver = '%s/%s' % (proto.strip(), version.strip())
+        self.transport, hostname = rest.split(None, 1)
+        hostname, _, params = hostname.partition(';')
+        hcomps = [hostname.strip()]
+        for name, val in split_params(params):
+            self.params[name] = val
         if hcomps[0].startswith('['):
             hcomps = hcomps[0].split(']', 1)
             self.hostname = hcomps[0] + ']'
             hcomps = hcomps[1].split(':', 1)
         else:
             hcomps = hcomps[0].split(':', 1)
-            self.hostname = hcomps[0]
+            self.hostname = hcomps[0].strip()
         if len(hcomps) == 2:
             try:
                 self.port = int(hcomps[1])
-- 
2.43.0


From a93b1393c0a7020d6648aa1ac28d050a457841ef Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:11:39 +0000
Subject: [PATCH 074/114] fix: copies of Warning headers not looked into yet
 lost the code and text

---
 sippy/SipWarning.py | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/sippy/SipWarning.py b/sippy/SipWarning.py
index c429c78..8f42ee3 100644
--- a/sippy/SipWarning.py
+++ b/sippy/SipWarning.py
@@ -50,7 +50,10 @@ class SipWarning(SipGenericHF):
 
     def parse(self):
         code, self.agent, text = self.body.split(None, 2)
-        self.text = text.strip('"')
+        text = text.strip()
+        if len(text) > 1 and text.startswith('"') and text.endswith('"'):
+            text = text[1:-1]
+        self.text = text
         self.code = int(code)
         self.parsed = True
 
@@ -60,4 +63,6 @@ class SipWarning(SipGenericHF):
         return '%d %s "%s"' % (self.code, self.agent, self.text)
 
     def getCopy(self):
+        if not self.parsed:
+            return self.__class__(self.body)
         return self.__class__(cself = self)
-- 
2.43.0


From 4ff4bff0e45501ea015ae3c207e290d0f856de19 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:11:40 +0000
Subject: [PATCH 075/114] fix: Reason headers with other parameters, lists of
 them and quotes in the text

---
 sippy/SipReason.py | 38 ++++++++++++++++++++++++--------------
 1 file changed, 24 insertions(+), 14 deletions(-)

diff --git a/sippy/SipReason.py b/sippy/SipReason.py
index cf338ad..fa36223 100644
--- a/sippy/SipReason.py
+++ b/sippy/SipReason.py
@@ -24,7 +24,8 @@
 # (INCLUDING NEGLIGENCE OR OTHERWISE) ARISING IN ANY WAY OUT OF THE USE OF THIS
 # SOFTWARE, EVEN IF ADVISED OF THE POSSIBILITY OF SUCH DAMAGE.
 
-from sippy.SipGenericHF import SipGenericHF
+from sippy.SipGenericHF import SipGenericHF, split_unquoted, split_params, escape_quotes
+from sippy.ESipHeaderCSV import ESipHeaderCSV
 
 class SipReason(SipGenericHF):
     '''
@@ -34,9 +35,14 @@ class SipReason(SipGenericHF):
     protocol = None
     cause = None
     reason = None
+    otherparams = ()
 
     def __init__(self, body = None, protocol = None, cause = None, reason = None):
         SipGenericHF.__init__(self, body)
+        if body is not None and ',' in body:
+            bodys = [x.strip() for x in split_unquoted(body, ',')]
+            if len(bodys) > 1:
+                raise ESipHeaderCSV(None, bodys)
         if body is None:
             self.parsed = True
             self.protocol = protocol
@@ -46,32 +52,36 @@ class SipReason(SipGenericHF):
     def parse(self):
         protocol, reason_params = self.body.split(';', 1)
         self.protocol = protocol.strip()
-        while len(reason_params:=reason_params.lstrip()) > 0:
-            rp_name, reason_params = (p:=reason_params.split('=', 1))[0], p[1].lstrip() if len(p) > 1 else ''
-            assert rp_name in ('cause', 'text')
-            if rp_name == 'text' and reason_params.startswith('"'):
-                rp_value, reason_params = (p:=reason_params[1:].split('"', 1))[0], p[1] if len(p) > 1 else ''
-                reason_params = '' if len(p:=reason_params.split(';', 1)) == 1 else p[1]
-            else:
-                rp_value, reason_params = (p:=reason_params.split(';', 1))[0], p[1] if len(p) > 1 else ''
+        otherparams = []
+        for rp_name, rp_value in split_params(reason_params):
             if rp_name == 'cause':
                 self.cause = int(rp_value)
-            elif rp_name == 'text':
+            elif rp_name == 'text' and rp_value is not None:
+                if rp_value.startswith('"'):
+                    rp_value = rp_value[1:-1] if len(rp_value) > 1 and rp_value.endswith('"') else rp_value[1:]
                 self.reason = rp_value
+            else:
+                otherparams.append((rp_name, rp_value))
+        self.otherparams = tuple(otherparams)
         assert(self.cause is not None)
         self.parsed = True
 
     def __str__(self):
         if not self.parsed:
             return self.body
-        if self.reason == None:
-            return '%s; cause=%d' % (self.protocol, self.cause)
-        return '%s; cause=%d; text="%s"' % (self.protocol, self.cause, self.reason)
+        rval = '%s; cause=%d' % (self.protocol, self.cause)
+        if self.reason != None:
+            rval += '; text="%s"' % escape_quotes(self.reason)
+        for name, value in self.otherparams:
+            rval += '; %s' % name if value is None else '; %s=%s' % (name, value)
+        return rval
 
     def getCopy(self):
         if not self.parsed:
             return SipReason(self.body)
-        return SipReason(protocol = self.protocol, cause = self.cause, reason = self.reason)
+        cself = SipReason(protocol = self.protocol, cause = self.cause, reason = self.reason)
+        cself.otherparams = self.otherparams
+        return cself
 
 if __name__ == '__main__':
     ours = 'Reason: Q.850; cause=31; text="db4e8de3-ef1e-4427-b6b8-afc339de9f0d;Callee only had Trouter endpoints registered and PNH got delivery errors from all of them."'
-- 
2.43.0


From 763007803712bddcfea347b70214846c3281dad4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:11:40 +0000
Subject: [PATCH 076/114] fix: white space in Replaces and Content-Type
 headers, compact name of Supported

---
 sippy/SipContentType.py | 14 +++++---------
 sippy/SipReplaces.py    | 20 ++++++++++----------
 sippy/SipSupported.py   |  2 +-
 3 files changed, 16 insertions(+), 20 deletions(-)

diff --git a/sippy/SipContentType.py b/sippy/SipContentType.py
index 9c7bb43..c4366d3 100644
--- a/sippy/SipContentType.py
+++ b/sippy/SipContentType.py
@@ -24,7 +24,7 @@
 # (INCLUDING NEGLIGENCE OR OTHERWISE) ARISING IN ANY WAY OUT OF THE USE OF THIS
 # SOFTWARE, EVEN IF ADVISED OF THE POSSIBILITY OF SUCH DAMAGE.
 
-from sippy.SipGenericHF import SipGenericHF
+from sippy.SipGenericHF import SipGenericHF, split_params
 
 class SipContentType(SipGenericHF):
     hf_names = ('content-type', 'c')
@@ -35,13 +35,9 @@ class SipContentType(SipGenericHF):
         SipGenericHF.__init__(self, body)
 
     def parse(self):
-        parts = self.body.split(';')
-        self.name = parts.pop(0)
-        params = []
-        for part in parts:
-            param = part.split('=', 1)
-            params.append(param)
-        self.params = dict(params)
+        name, _, params = self.body.partition(';')
+        self.name = name.strip()
+        self.params = dict(split_params(params))
         self.parsed = True
 
     def getCanName(self, name, compact = False):
@@ -62,7 +58,7 @@ class SipContentType(SipGenericHF):
         if not self.parsed:
             return super().__str__()
         s = [self.name,]
-        s += [f'{k}={v}' for k, v in self.params.items()]
+        s += [k if v is None else f'{k}={v}' for k, v in self.params.items()]
         return ';'.join(s)
 
 if __name__ == '__main__':
diff --git a/sippy/SipReplaces.py b/sippy/SipReplaces.py
index e305574..3cc303a 100644
--- a/sippy/SipReplaces.py
+++ b/sippy/SipReplaces.py
@@ -24,7 +24,7 @@
 # (INCLUDING NEGLIGENCE OR OTHERWISE) ARISING IN ANY WAY OUT OF THE USE OF THIS
 # SOFTWARE, EVEN IF ADVISED OF THE POSSIBILITY OF SUCH DAMAGE.
 
-from sippy.SipGenericHF import SipGenericHF
+from sippy.SipGenericHF import SipGenericHF, split_params
 
 class SipReplaces(SipGenericHF):
     hf_names = ('replaces',)
@@ -50,17 +50,17 @@ class SipReplaces(SipGenericHF):
 
     def parse(self):
         self.params = []
-        params = self.body.split(';')
-        self.call_id = params.pop(0)
-        for param in params:
-            if param.startswith('from-tag='):
-                self.from_tag = param[len('from-tag='):]
-            elif param.startswith('to-tag='):
-                self.to_tag = param[len('to-tag='):]
-            elif param == 'early-only':
+        call_id, _, params = self.body.partition(';')
+        self.call_id = call_id.strip()
+        for name, value in split_params(params):
+            if name == 'from-tag':
+                self.from_tag = value
+            elif name == 'to-tag':
+                self.to_tag = value
+            elif name == 'early-only' and value is None:
                 self.early_only = True
             else:
-                self.params.append(param)
+                self.params.append(name if value is None else '%s=%s' % (name, value))
         self.parsed = True
 
     def __str__(self):
diff --git a/sippy/SipSupported.py b/sippy/SipSupported.py
index 829e95d..ad772b7 100644
--- a/sippy/SipSupported.py
+++ b/sippy/SipSupported.py
@@ -29,7 +29,7 @@ from sippy.SipGenericHF import SipGenericHF
 from functools import reduce
 
 class SipSupported(SipGenericHF):
-    hf_names = ('supported',)
+    hf_names = ('supported', 'k')
     caps = None
 
     def __init__(self, body = None, caps = None):
-- 
2.43.0


From 5881553130e352ea6390456d82d8f72a5dbcb794 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:11:40 +0000
Subject: [PATCH 077/114] fix: copies of bodies lost their type and the headers
 of parts, printed parts lost their headers

---
 sippy/MsgBody.py          |  2 +-
 sippy/MultipartMixBody.py | 34 +++++++++++++++++++++++-----------
 2 files changed, 24 insertions(+), 12 deletions(-)

diff --git a/sippy/MsgBody.py b/sippy/MsgBody.py
index 2f63b3a..90c9ca7 100644
--- a/sippy/MsgBody.py
+++ b/sippy/MsgBody.py
@@ -79,7 +79,7 @@ class MsgBody(object):
 
     def getCopy(self):
         if not self.parsed:
-            return MsgBody(self.content)
+            return MsgBody(self.content, self.mtype.getCopy())
         return MsgBody(cself = self)
 
 if 'MultipartMixBody' not in globals():
diff --git a/sippy/MultipartMixBody.py b/sippy/MultipartMixBody.py
index eb9b0a6..d26bdfc 100644
--- a/sippy/MultipartMixBody.py
+++ b/sippy/MultipartMixBody.py
@@ -40,18 +40,23 @@ class MultipartMixBody():
         if body is None:
             self.setBoundary(token_hex(16))
             return
-        sep = f'--{ctype.params["boundary"]}'
+        boundary = ctype.params["boundary"]
+        if boundary.startswith('"'):
+            boundary = boundary[1:-1]
+        sep = f'--{boundary}'
         bparts = body.split(sep)
         assert len(bparts) > 2
         assert len(bparts[0]) == 0
         assert bparts[-1].strip() == '--'
-        parts = [p.lstrip() for p in bparts[1:-1]]
-        for sect in parts:
+        for sect in bparts[1:-1]:
             headers = []
-            ct = None
+            ct = SipContentType('text/plain')
+            ct.parse()
             headersect, sect = sect.split('\r\n\r\n', 1)
             # parse sub headers
-            for hl in headersect.split('\r\n'):
+            for hl in headersect.strip().split('\r\n'):
+                if len(hl) == 0:
+                    continue
                 h = SipHeader(hl)
                 if h.name == "content-type":
                     ct = h.getBody()
@@ -61,33 +66,40 @@ class MultipartMixBody():
             sect = MsgBody(sect, ct)
             self.parts.append(sect)
             self.part_headers.append(headers)
-        self.setBoundary(ctype.params["boundary"])
+        self.setBoundary(boundary)
 
     def setBoundary(self, bnd):
         self.boundary = bnd
         mtype = self.mtype.getCopy()
-        mtype.params["boundary"] = bnd
+        mtype.params["boundary"] = bnd if bnd.replace('-', '').isalnum() else f'"{bnd}"'
         self.mtype = mtype
 
     def __str__(self):
         bnd = f'--{self.boundary}\r\n'
-        parts = [f'{bnd}Content-Type: {p.mtype}\r\n\r\n{p}' for p in self.parts]
+        parts = [f'{bnd}Content-Type: {p.mtype}\r\n{self.partHeaders(i)}\r\n{p}'
+                 for i, p in enumerate(self.parts)]
         s = ''.join(parts)
         s += f'{bnd[:-2]}--\r\n'
         return s
 
     def localStr(self, local_addr = None):
         bnd = f'--{self.boundary}\r\n'
-        parts = [f'{bnd}Content-Type: {p.mtype}\r\n\r\n{p.localStr(local_addr)}'
-                 for p in self.parts]
+        parts = [f'{bnd}Content-Type: {p.mtype}\r\n{self.partHeaders(i)}\r\n{p.localStr(local_addr)}'
+                 for i, p in enumerate(self.parts)]
         s = ''.join(parts)
         s += f'{bnd[:-2]}--\r\n'
         return s
 
+    def partHeaders(self, i):
+        if i >= len(self.part_headers):
+            return ''
+        return ''.join(f'{h}\r\n' for h in self.part_headers[i])
+
     def getCopy(self):
         cself = MultipartMixBody()
         cself.parts = [p.getCopy() for p in self.parts]
-        cself.boundary = self.boundary
+        cself.part_headers = [[h.getCopy() for h in hs] for hs in self.part_headers]
+        cself.setBoundary(self.boundary)
         return cself
 
     def getContentType(self):
-- 
2.43.0


From 361ca7eb64d77aacecc5126e552c03f5f450978b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:11:40 +0000
Subject: [PATCH 078/114] fix: requests could not be copied, copies of
 challenges shared their qop list

---
 sippy/SipAddress.py         | 3 ++-
 sippy/SipMsg.py             | 3 ++-
 sippy/SipRequest.py         | 8 ++++++++
 sippy/SipWWWAuthenticate.py | 2 +-
 4 files changed, 13 insertions(+), 3 deletions(-)

diff --git a/sippy/SipAddress.py b/sippy/SipAddress.py
index 51fabf3..eb005b3 100644
--- a/sippy/SipAddress.py
+++ b/sippy/SipAddress.py
@@ -34,6 +34,7 @@ except ImportError:
     maketrans = str.maketrans
     needquotes = lambda x, y: not (x.isascii() and x.translate(y).isalnum())
 
+quoted_string = re.compile(r'"(?:[^"\\]|\\.)*"', re.DOTALL)
 quoted_name = re.compile(r'"((?:[^"\\]|\\.)*)"\s*<(.*)$', re.DOTALL)
 
 def findquotes(s, pos = 1):
@@ -72,7 +73,7 @@ class SipAddress(object):
             return
         address = address.strip()
         # simple 'sip:foo' case
-        if address.lower().startswith(('sip:', 'sips:', 'tel:')) and address.find('<') == -1:
+        if address.lower().startswith(('sip:', 'sips:', 'tel:')) and '<' not in quoted_string.sub('', address):
             parts = address.split(';', 1)
             self.url = SipURL(parts[0].strip(), relaxedparser = relaxedparser)
             if len(parts) == 2:
diff --git a/sippy/SipMsg.py b/sippy/SipMsg.py
index 0ca7e31..4e773f6 100644
--- a/sippy/SipMsg.py
+++ b/sippy/SipMsg.py
@@ -273,7 +273,8 @@ class SipMsg(object):
         return tuple([(call_id, ftag, cseq, method, via.getBranch()) for via in self.getHFBodys('via')])
 
     def getCopy(self):
-        cself = self.__class__()
+        cself = self.__class__.__new__(self.__class__)
+        SipMsg.__init__(cself)
         for header in self.headers:
             cself.appendHeader(header.getCopy())
         if self.body is not None:
diff --git a/sippy/SipRequest.py b/sippy/SipRequest.py
index 1fb1d50..bbf293d 100644
--- a/sippy/SipRequest.py
+++ b/sippy/SipRequest.py
@@ -106,6 +106,14 @@ class SipRequest(SipMsg):
     def setRURI(self, ruri):
         self.ruri = ruri
 
+    def getCopy(self):
+        cself = SipMsg.getCopy(self)
+        cself.method = self.method
+        cself.ruri = self.ruri.getCopy()
+        cself.sipver = self.sipver
+        cself.user_agent = self.user_agent
+        return cself
+
     def genResponse(self, scode, reason, body = None, server = None, ext_reason = None):
         # Should be done at the transaction level
         # to = self.getHF('to').getBody().getCopy()
diff --git a/sippy/SipWWWAuthenticate.py b/sippy/SipWWWAuthenticate.py
index d115dc5..38c56c7 100644
--- a/sippy/SipWWWAuthenticate.py
+++ b/sippy/SipWWWAuthenticate.py
@@ -115,7 +115,7 @@ class SipWWWAuthenticate(SipGenericHF):
             return self.__class__(self.body)
         cself = self.__class__(realm = self.realm, nonce = self.nonce)
         cself.algorithm = self.algorithm
-        cself.qop = self.qop
+        cself.qop = self.qop[:] if self.qop is not None else None
         cself.opaque = self.opaque
         if len(self.otherparams) > 0:
             cself.otherparams = self.otherparams[:]
-- 
2.43.0


From 70c986d05e888bbc892b36b57745f1a491b83672 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:19:48 +0000
Subject: [PATCH 079/114] fix: requests with routes could not be built without
 giving their target

---
 sippy/SipRoute.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/sippy/SipRoute.py b/sippy/SipRoute.py
index 1616f9c..2e4ca01 100644
--- a/sippy/SipRoute.py
+++ b/sippy/SipRoute.py
@@ -39,3 +39,6 @@ class SipRoute(SipFrom):
 
     def getAddr(self):
         return self.address.url.getAddr()
+
+    def getTAddr(self):
+        return self.address.url.getTAddr()
-- 
2.43.0


From b9187d1c409389998cfaca4d2e75a3b1ac89760c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:45:11 +0000
Subject: [PATCH 080/114] fix: requests with truncated body were not answered
 400

---
 sippy/SipRequest.py            |  4 +++-
 sippy/SipTransactionManager.py | 12 +++++++-----
 2 files changed, 10 insertions(+), 6 deletions(-)

diff --git a/sippy/SipRequest.py b/sippy/SipRequest.py
index bbf293d..425773d 100644
--- a/sippy/SipRequest.py
+++ b/sippy/SipRequest.py
@@ -50,7 +50,9 @@ class SipRequest(SipMsg):
                 SipMsg.init_body(self)
             except SipParseError as e:
                 try:
-                    e.sip_response = self.genResponse(400, 'Bad Request - %s' % str(e))
+                    # There is no such thing as a response to ACK
+                    if self.method != 'ACK':
+                        e.sip_response = self.genResponse(400, 'Bad Request - %s' % str(e))
                 except Exception as e1:
                     print('BUG: Double exception, should not be happening:\n', str(e1))
                 raise e
diff --git a/sippy/SipTransactionManager.py b/sippy/SipTransactionManager.py
index 7e31179..ffaef6c 100644
--- a/sippy/SipTransactionManager.py
+++ b/sippy/SipTransactionManager.py
@@ -331,12 +331,14 @@ class SipTransactionManager(object):
                 req = SipRequest(data)
                 tids = req.getTIds()
             except Exception as exception:
-                if isinstance(exception, SipParseError):
-                    resp = exception.getResponse()
-                    if resp is not None:
-                        self.transmitMsg(server, resp, ra.address, checksum)
                 dump_exception(f'can\'t parse SIP request from {ra}', extra = data)
-                self.l1rcache[checksum] = SipTMRetransmitO()
+                resp = None
+                if isinstance(exception, SipParseError):
+                    resp = exception.sip_response
+                if resp is not None:
+                    self.transmitMsg(server, resp, ra.address, checksum)
+                else:
+                    self.l1rcache[checksum] = SipTMRetransmitO()
                 return
             call_id = tids[0][0]
             req.rtime = rtime
-- 
2.43.0


From 353a0814b7a374013904e7b347ca43d20afe0d02 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:45:11 +0000
Subject: [PATCH 081/114] fix: negative Content-Length cut the body

---
 sippy/SipMsg.py | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/sippy/SipMsg.py b/sippy/SipMsg.py
index 4e773f6..86093d2 100644
--- a/sippy/SipMsg.py
+++ b/sippy/SipMsg.py
@@ -104,7 +104,12 @@ class SipMsg(object):
 
     def init_body(self):
         if self.__content_length != None:
-            blen = self.__content_length.getBody().number
+            try:
+                blen = self.__content_length.getBody().number
+            except ValueError:
+                blen = -1
+            if blen < 0:
+                raise SipParseError('Malformed Content-Length')
             if self.__mbody == None:
                 mblen = 0
             else:
-- 
2.43.0


From 6bc817987a487b9c16a3d10a268b3491079e73a5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:45:12 +0000
Subject: [PATCH 082/114] fix: server transactions of requests that could not
 be processed lingered

---
 sippy/SipTransactionManager.py | 35 +++++++++++++++++++++++-----------
 sippy/b2bua.py                 |  2 +-
 2 files changed, 25 insertions(+), 12 deletions(-)

diff --git a/sippy/SipTransactionManager.py b/sippy/SipTransactionManager.py
index ffaef6c..2fb352e 100644
--- a/sippy/SipTransactionManager.py
+++ b/sippy/SipTransactionManager.py
@@ -33,6 +33,7 @@ from sippy.SipRequest import SipRequest
 from sippy.SipAddress import SipAddress
 from sippy.SipRoute import SipRoute
 from sippy.SipHeader import SipHeader
+from sippy.Exceptions.SipHandlingError import SipHandlingError
 from sippy.Exceptions.SipParseError import SipParseError
 from sippy.Exceptions.SdpParseError import SdpParseError
 from sippy.Exceptions.RtpProxyError import RtpProxyError
@@ -693,17 +694,29 @@ class SipTransactionManager(object):
                 t.needack = False
                 t.branch = None
             self.tserver[t.tid] = t
-            for consumer in self.req_consumers.get(t.tid[0], ()):
-                cobj = consumer.cobj.isYours(msg)
-                if cobj != None:
-                    t.compact = consumer.compact
-                    rval = cobj.recvRequest(msg, t)
-                    break
-            else:
-                if self.req_cb == None:
-                    self.l1rcache[checksum] = SipTMRetransmitO()
-                    return
-                rval = self.req_cb(msg, t)
+            try:
+                for consumer in self.req_consumers.get(t.tid[0], ()):
+                    cobj = consumer.cobj.isYours(msg)
+                    if cobj != None:
+                        t.compact = consumer.compact
+                        rval = cobj.recvRequest(msg, t)
+                        break
+                else:
+                    if self.req_cb == None:
+                        self.l1rcache[checksum] = SipTMRetransmitO()
+                        return
+                    rval = self.req_cb(msg, t)
+            except SipHandlingError:
+                # Those are to be responded by the caller
+                raise
+            except Exception:
+                # Nobody is going to care about this transaction anymore
+                if t.data == None and self.tserver.get(t.tid, None) == t:
+                    if t.teE != None:
+                        t.teE.cancel()
+                    del self.tserver[t.tid]
+                    t.cleanup()
+                raise
             if rval == None:
                 if t.teA != None or t.teD != None or t.teE != None or t.teF != None:
                     return
diff --git a/sippy/b2bua.py b/sippy/b2bua.py
index bf219c3..02c37fd 100755
--- a/sippy/b2bua.py
+++ b/sippy/b2bua.py
@@ -475,7 +475,7 @@ class CallMap(object):
             to_tag = req.getHFBody('to').getTag()
         except Exception as exception:
             dump_exception('can\'t parse SIP request', extra = req)
-            return (None, None, None)
+            raise
         if to_tag != None:
             # Request within dialog, but no such dialog
             return (req.genResponse(481, 'Call Leg/Transaction Does Not Exist'), None, None)
-- 
2.43.0


From 9d3c864b567b0112de78e365d329462d2d4af7a3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:45:12 +0000
Subject: [PATCH 083/114] fix: final responses with broken Contact or
 Record-Route left the transaction without timers

---
 sippy/SipTransactionManager.py | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/sippy/SipTransactionManager.py b/sippy/SipTransactionManager.py
index 2fb352e..945db6f 100644
--- a/sippy/SipTransactionManager.py
+++ b/sippy/SipTransactionManager.py
@@ -298,6 +298,14 @@ class SipTransactionManager(object):
             try:
                 resp = SipResponse(data)
                 tid = resp.getTId(True, True)
+                if resp.getSCode()[0] >= 200:
+                    # Once the state of the transaction has been updated it would
+                    # be too late to find out that the response is not usable
+                    resp.getHFBody('to')
+                    if resp.getSCode()[0] < 400 and resp.getHFBody('cseq').method == 'INVITE':
+                        for contact in resp.getHFBodys('contact'):
+                            contact.getUrl()
+                        resp.getHFBodys('record-route')
             except Exception as exception:
                 dump_exception(f'can\'t parse SIP response from {ra}', extra = data)
                 self.l1rcache[checksum] = SipTMRetransmitO()
-- 
2.43.0


From 246733b48dc229d22d2a8ea66ba940388b1a693c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:45:12 +0000
Subject: [PATCH 084/114] fix: a call with broken Authorization header left a
 dialog behind

---
 sippy/UasStateIdle.py | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/sippy/UasStateIdle.py b/sippy/UasStateIdle.py
index 9074cd7..c140fd6 100644
--- a/sippy/UasStateIdle.py
+++ b/sippy/UasStateIdle.py
@@ -51,6 +51,10 @@ class UasStateIdle(UaStateGeneric):
         if self.ua.lContact == None:
             self.ua.lContact = SipContact()
         self.ua.rTarget = req.getHFBody('contact').getUrl().getCopy()
+        if req.countHFs('authorization') == 0:
+            auth = None
+        else:
+            auth = req.getHFBody('authorization').getCopy()
         self.ua.routes = [x.getCopy() for x in self.ua.uasResp.getHFBodys('record-route')]
         if len(self.ua.routes) > 0:
             if not self.ua.routes[0].getUrl().lr:
@@ -74,10 +78,6 @@ class UasStateIdle(UaStateGeneric):
         self.ua.rUri = SipTo(address = self.ua.uasResp.getHFBody('from').getUri())
         self.ua.cId = self.ua.uasResp.getHFBody('call-id')
         self.ua.global_config['_sip_tm'].regConsumer(self.ua, str(self.ua.cId), compact = self.ua.compact_sip)
-        if req.countHFs('authorization') == 0:
-            auth = None
-        else:
-            auth = req.getHFBody('authorization').getCopy()
         body = req.getBody()
         self.ua.branch = req.getHFBody('via').getBranch()
         event = CCEventTry((self.ua.cId, self.ua.rUri.getUrl().username, req.getRURI().username, body, auth, \
-- 
2.43.0


From a01c06fb5b452c0f0244a37786cfd98fe6a2fca2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:45:12 +0000
Subject: [PATCH 085/114] fix: removal of a server transaction whose place has
 been taken by another request

---
 sippy/SipTransactionManager.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/sippy/SipTransactionManager.py b/sippy/SipTransactionManager.py
index 945db6f..b31bef3 100644
--- a/sippy/SipTransactionManager.py
+++ b/sippy/SipTransactionManager.py
@@ -826,7 +826,9 @@ class SipTransactionManager(object):
             t.teA = None
         if t.noack_cb != None and t.state != CONFIRMED:
             t.noack_cb()
-        del self.tserver[t.tid]
+        # A request that only differs in branch might have taken the place
+        if self.tserver.get(t.tid, None) == t:
+            del self.tserver[t.tid]
         t.cleanup()
 
     def timerE(self, t):
-- 
2.43.0


From 015ebb371cc19db7f8c211ee4a3c7bfc4a137e6c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:45:12 +0000
Subject: [PATCH 086/114] fix: BYE or REFER with broken Also or Refer-To was
 accepted but not acted upon

---
 sippy/UaStateConnected.py |  4 ++--
 sippy/UaStateGeneric.py   | 13 ++++++++++---
 sippy/UasStateUpdating.py |  4 ++--
 3 files changed, 14 insertions(+), 7 deletions(-)

diff --git a/sippy/UaStateConnected.py b/sippy/UaStateConnected.py
index a1ca271..6067c21 100644
--- a/sippy/UaStateConnected.py
+++ b/sippy/UaStateConnected.py
@@ -53,11 +53,11 @@ class UaStateConnected(UaStateGeneric):
             Timeout(self.keepAlive, self.ua.kaInterval)
 
     def _recvRequestRefer(self, req):
-        if req.countHFs('refer-to') == 0:
+        also = self._getOptionalHF(req, 'refer-to')
+        if also is None:
             req.sendResponse(400, 'Bad Request')
             return None
         req.sendResponse(202, 'Accepted')
-        also = req.getHFBody('refer-to').getCopy()
         self.ua.equeue.append(CCEventDisconnect(also, rtime = req.rtime, origin = self.ua.origin))
         self.ua.recvEvent(CCEventDisconnect(rtime = req.rtime, origin = self.ua.origin))
         return None
diff --git a/sippy/UaStateGeneric.py b/sippy/UaStateGeneric.py
index 6b553cd..40b721a 100644
--- a/sippy/UaStateGeneric.py
+++ b/sippy/UaStateGeneric.py
@@ -53,9 +53,16 @@ class UaStateGeneric(object):
         return None
 
     def _getRequestAlso(self, req):
-        if req.countHFs('also') > 0:
-            return req.getHFBody('also').getCopy()
-        return None
+        # Being unable to tell where to go next is not a reason to not hang up
+        return self._getOptionalHF(req, 'also')
+
+    def _getOptionalHF(self, req, name):
+        if req.countHFs(name) == 0:
+            return None
+        try:
+            return req.getHFBody(name).getCopy()
+        except Exception:
+            return None
 
     def _disconnectFromRequest(self, req, also = None, copy_reason = True):
         event = CCEventDisconnect(also, rtime = req.rtime, origin = self.ua.origin)
diff --git a/sippy/UasStateUpdating.py b/sippy/UasStateUpdating.py
index 5bbd03a..778692b 100644
--- a/sippy/UasStateUpdating.py
+++ b/sippy/UasStateUpdating.py
@@ -44,12 +44,12 @@ class UasStateUpdating(UasStateGeneric):
         return self._disconnectFromRequest(req)
 
     def _recvRequestRefer(self, req):
-        if req.countHFs('refer-to') == 0:
+        also = self._getOptionalHF(req, 'refer-to')
+        if also is None:
             req.sendResponse(400, 'Bad Request')
             return None
         self.ua.sendUasResponse(487, 'Request Terminated')
         req.sendResponse(202, 'Accepted')
-        also = req.getHFBody('refer-to').getCopy()
         breq = self.ua.genRequest('BYE')
         self.ua.newTransaction(breq)
         self.ua.cancelCreditTimer()
-- 
2.43.0


From ec1f6caa5ea2e3bedabebf268a35bc42c71d0bdc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:56:22 +0000
Subject: [PATCH 087/114] fix: broken challenges left the transaction behind
 and stopped keepalives

---
 sippy/SipWWWAuthenticate.py | 2 ++
 sippy/UA.py                 | 7 ++++++-
 sippy/UaStateConnected.py   | 7 ++++++-
 3 files changed, 14 insertions(+), 2 deletions(-)

diff --git a/sippy/SipWWWAuthenticate.py b/sippy/SipWWWAuthenticate.py
index 38c56c7..e3941a0 100644
--- a/sippy/SipWWWAuthenticate.py
+++ b/sippy/SipWWWAuthenticate.py
@@ -143,6 +143,8 @@ class SipWWWAuthenticate(SipGenericHF):
         return auth
 
     def supportedAlgorithm(self):
+        if self.realm is None or self.nonce is None:
+            return False, None
         if self.qop is not None:
             qops = [x for x in self.qop if x in ('auth', 'auth-int')]
             if len(qops) == 0:
diff --git a/sippy/UA.py b/sippy/UA.py
index 61f407f..fc26af7 100644
--- a/sippy/UA.py
+++ b/sippy/UA.py
@@ -202,7 +202,12 @@ class UA(object):
           self.reqs[cseq].countHFs('proxy-authorization') != 0:
             # Challenged again, possibly by somebody else on the path
             return False
-        for challenge in resp.getHFBodys(ch_hfname):
+        try:
+            challenges = resp.getHFBodys(ch_hfname)
+        except Exception:
+            # Not possible to answer this
+            return False
+        for challenge in challenges:
             #print(self.processChallenge, cseq, challenge, challenge.algorithm)
             if self.auth_enalgs is not None and challenge.algorithm not in self.auth_enalgs:
                 continue
diff --git a/sippy/UaStateConnected.py b/sippy/UaStateConnected.py
index 6067c21..598f3f5 100644
--- a/sippy/UaStateConnected.py
+++ b/sippy/UaStateConnected.py
@@ -284,7 +284,12 @@ class UaStateConnected(UaStateGeneric):
     def keepAliveAuth(self, resp, ch_hfname):
         if self.ua.username == None or self.ua.password == None or self.triedauth:
             return False
-        for challenge in resp.getHFBodys(ch_hfname):
+        try:
+            challenges = resp.getHFBodys(ch_hfname)
+        except Exception:
+            # Not possible to answer this
+            return False
+        for challenge in challenges:
             if self.ua.auth_enalgs is not None and challenge.algorithm not in self.ua.auth_enalgs:
                 continue
             supported, qop = challenge.supportedAlgorithm()
-- 
2.43.0


From 69876c576bbfa75340dc796271c059efe9ce6dca Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:12:44 +0000
Subject: [PATCH 088/114] fix: registrations did not ask for their time

---
 sippy/SipRegistrationAgent.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/sippy/SipRegistrationAgent.py b/sippy/SipRegistrationAgent.py
index 2b662ca..5ee3d5a 100644
--- a/sippy/SipRegistrationAgent.py
+++ b/sippy/SipRegistrationAgent.py
@@ -58,7 +58,7 @@ class SipRegistrationAgent(object):
         fr0m.genTag()
         to = SipTo(address = tfaddr)
         contact = SipContact(address = SipAddress(url = contact))
-        contact.address.params['expires'] = str(exp)
+        contact.address.setParam('expires', str(exp))
         self.exp = exp
         self.rmsg = SipRequest(method = 'REGISTER', ruri = ruri, fr0m = fr0m, contact = contact, to = to, target = target)
 
-- 
2.43.0


From 139c706a701f2c0ab5e59ff05ab48629e432f4e5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:12:44 +0000
Subject: [PATCH 089/114] fix: challenges of proxies on the way to the
 registrar were answered in the wrong header

---
 sippy/SipRegistrationAgent.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/sippy/SipRegistrationAgent.py b/sippy/SipRegistrationAgent.py
index 5ee3d5a..319b66f 100644
--- a/sippy/SipRegistrationAgent.py
+++ b/sippy/SipRegistrationAgent.py
@@ -96,7 +96,7 @@ class SipRegistrationAgent(object):
             return
         if self.user != None and self.passw != None and self.atries < 3:
             for sc, chn, rhn in ((401, 'www-authenticate', 'authorization'),
-                                 (407, 'proxy-authenticate', 'authorization')):
+                                 (407, 'proxy-authenticate', 'proxy-authorization')):
                 if resp.scode != sc:
                     continue
                 if resp.countHFs(chn) == 0:
-- 
2.43.0


From 301cdf081eaaee657dc8160bb06944f2dd701f02 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:12:44 +0000
Subject: [PATCH 090/114] fix: registration gave up for good on a broken
 challenge, only the first of several was considered

---
 sippy/SipRegistrationAgent.py | 13 +++++++++----
 1 file changed, 9 insertions(+), 4 deletions(-)

diff --git a/sippy/SipRegistrationAgent.py b/sippy/SipRegistrationAgent.py
index 319b66f..514a4e7 100644
--- a/sippy/SipRegistrationAgent.py
+++ b/sippy/SipRegistrationAgent.py
@@ -99,11 +99,16 @@ class SipRegistrationAgent(object):
                                  (407, 'proxy-authenticate', 'proxy-authorization')):
                 if resp.scode != sc:
                     continue
-                if resp.countHFs(chn) == 0:
+                try:
+                    challenges = resp.getHFBodys(chn)
+                except Exception:
+                    # Not possible to answer this
                     break
-                challenge = resp.getHFBody(chn)
-                supported, qop = challenge.supportedAlgorithm()
-                if not supported:
+                for challenge in challenges:
+                    supported, qop = challenge.supportedAlgorithm()
+                    if supported:
+                        break
+                else:
                     break
                 auth = challenge.genAuthHF(self.user, self.passw, 'REGISTER',
                                            str(self.rmsg.ruri), qop=qop)
-- 
2.43.0


From c46cc3c2e65d3420fbfafef00726224a168a85df Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:12:44 +0000
Subject: [PATCH 091/114] fix: registration was renewed according to the
 binding of somebody else

---
 sippy/SipRegistrationAgent.py | 10 +++++++++-
 1 file changed, 9 insertions(+), 1 deletion(-)

diff --git a/sippy/SipRegistrationAgent.py b/sippy/SipRegistrationAgent.py
index 514a4e7..3e87c95 100644
--- a/sippy/SipRegistrationAgent.py
+++ b/sippy/SipRegistrationAgent.py
@@ -74,6 +74,12 @@ class SipRegistrationAgent(object):
         self.dead = True
         self.rmsg = None
 
+    def ownContact(self, contact):
+        if contact.asterisk:
+            return False
+        url, own = contact.getUrl(), self.rmsg.getHFBody('contact').getUrl()
+        return (url.username, str(url.host), url.getPort()) == (own.username, str(own.host), own.getPort())
+
     def gotreply(self, resp):
         if self.dead:
             return
@@ -82,7 +88,9 @@ class SipRegistrationAgent(object):
         if resp.scode >= 200 and resp.scode < 300 and resp.reason != 'Auth Failed':
             contact = None
             if resp.countHFs('contact') > 0:
-                contact = resp.getHFBody('contact')
+                # Other bindings of the same user might be listed as well
+                contacts = resp.getHFBodys('contact')
+                contact = ([x for x in contacts if self.ownContact(x)] + contacts)[0]
             if contact != None and 'expires' in contact.address.params:
                 tout = int(contact.address.params['expires'])
             elif resp.countHFs('expires') > 0:
-- 
2.43.0


From 20a372992a2e97d5d3eec40df84657961d8b7f1d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:12:44 +0000
Subject: [PATCH 092/114] fix: registration stopped or went on without a pause
 when no sensible time was granted

---
 sippy/SipRegistrationAgent.py | 16 +++++++++++-----
 1 file changed, 11 insertions(+), 5 deletions(-)

diff --git a/sippy/SipRegistrationAgent.py b/sippy/SipRegistrationAgent.py
index 3e87c95..64603b4 100644
--- a/sippy/SipRegistrationAgent.py
+++ b/sippy/SipRegistrationAgent.py
@@ -91,12 +91,18 @@ class SipRegistrationAgent(object):
                 # Other bindings of the same user might be listed as well
                 contacts = resp.getHFBodys('contact')
                 contact = ([x for x in contacts if self.ownContact(x)] + contacts)[0]
-            if contact != None and 'expires' in contact.address.params:
-                tout = int(contact.address.params['expires'])
-            elif resp.countHFs('expires') > 0:
-                tout = resp.getHFBody('expires').getNum()
-            else:
+            try:
+                if contact != None and 'expires' in contact.address.params:
+                    tout = int(contact.address.params['expires'])
+                elif resp.countHFs('expires') > 0:
+                    tout = resp.getHFBody('expires').getNum()
+                else:
+                    tout = self.exp
+            except (TypeError, ValueError):
                 tout = self.exp
+            if tout <= 0:
+                # Has not been granted
+                tout = 60
             timer = Timeout(self.doregister, tout)
             if self.rok_cb != None:
                 self.rok_cb(timer.etime.realt, contact, self.cb_arg)
-- 
2.43.0


From 25da64610f2d8421d592e43f41260b4c642eb4d5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:12:44 +0000
Subject: [PATCH 093/114] fix: registration was renewed after it had expired
 only

---
 sippy/SipRegistrationAgent.py | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/sippy/SipRegistrationAgent.py b/sippy/SipRegistrationAgent.py
index 64603b4..99bcf65 100644
--- a/sippy/SipRegistrationAgent.py
+++ b/sippy/SipRegistrationAgent.py
@@ -25,6 +25,7 @@
 # SOFTWARE, EVEN IF ADVISED OF THE POSSIBILITY OF SUCH DAMAGE.
 
 from sippy.Time.Timeout import Timeout
+from sippy.Time.MonoTime import MonoTime
 from sippy.SipURL import SipURL
 from sippy.SipTo import SipTo
 from sippy.SipFrom import SipFrom
@@ -103,9 +104,10 @@ class SipRegistrationAgent(object):
             if tout <= 0:
                 # Has not been granted
                 tout = 60
-            timer = Timeout(self.doregister, tout)
+            # Renew it while it is still there
+            Timeout(self.doregister, tout - min(tout * 0.1, 10))
             if self.rok_cb != None:
-                self.rok_cb(timer.etime.realt, contact, self.cb_arg)
+                self.rok_cb(MonoTime().getOffsetCopy(tout).realt, contact, self.cb_arg)
             self.atries = 0
             return
         if self.user != None and self.passw != None and self.atries < 3:
-- 
2.43.0


From d7af8b053f1c09079e21f6b40bba3f59095467b4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:20:55 +0000
Subject: [PATCH 094/114] fix: proxy refused requests with one hop left

---
 sippy/StatefulProxy.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/sippy/StatefulProxy.py b/sippy/StatefulProxy.py
index c66f85a..e9134c9 100644
--- a/sippy/StatefulProxy.py
+++ b/sippy/StatefulProxy.py
@@ -40,7 +40,7 @@ class StatefulProxy:
         try:
             max_forwards = req.getHFBody('max-forwards')
             mfval = max_forwards.incNum(incr=-1)
-            if mfval <= 0:
+            if mfval < 0:
                 return (req.genResponse(483, 'Too Many Hops'), None, None)
         except IndexError:
             req.appendHeader(SipHeader(name = 'max-forwards'))
-- 
2.43.0


From e17dc695dc1db6c219ff2f57be96f2fbe45f84e3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:21:18 +0000
Subject: [PATCH 095/114] fix: proxy missed support of Path in further
 Supported headers

---
 sippy/StatefulProxy.py | 17 +++++++----------
 1 file changed, 7 insertions(+), 10 deletions(-)

diff --git a/sippy/StatefulProxy.py b/sippy/StatefulProxy.py
index e9134c9..bd5e9d7 100644
--- a/sippy/StatefulProxy.py
+++ b/sippy/StatefulProxy.py
@@ -60,14 +60,11 @@ class StatefulProxy:
         self.global_config['_sip_tm'].sendResponse(resp)
 
     def insertPath(self, req):
-        try:
-            supported = req.getHFBody('supported')
-        except IndexError: pass
+        if not any('path' in supported.caps for supported in req.getHFBodys('supported')):
+            return
+        mypath = SipHeader(name = 'path')
+        if req.countHFs('path') == 0:
+            req.appendHeader(mypath)
         else:
-            if 'path' in supported.caps:
-                mypath = SipHeader(name = 'path')
-                if req.countHFs('path') == 0:
-                    req.appendHeader(mypath)
-                else:
-                    path1 = req.getHF('path')
-                    req.insertHeaderBefore(path1, mypath)
+            path1 = req.getHF('path')
+            req.insertHeaderBefore(path1, mypath)
-- 
2.43.0


From c268e1615d9863b88aa5e20e392e36fabbf0e5d5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:07:18 +0000
Subject: [PATCH 096/114] fix: operator connection stayed open for good once
 reset by its client

---
 sippy/CLIManager.py | 11 ++++-------
 1 file changed, 4 insertions(+), 7 deletions(-)

diff --git a/sippy/CLIManager.py b/sippy/CLIManager.py
index aba99b2..74a8493 100644
--- a/sippy/CLIManager.py
+++ b/sippy/CLIManager.py
@@ -194,12 +194,9 @@ class _CLIManager_w(Thread):
             while True:
                 try:
                     res = self.clientsock.send(wbuffer)
-                except BrokenPipeError:
-                    self.clim = None
-                    return
                 except socket.error as why:
                     if why.errno != EBADF:
-                        raise
+                        ED2.callFromThread(self.clim.shutdown)
                     self.clim = None
                     return
                 if res == len(wbuffer):
@@ -244,9 +241,9 @@ class _CLIManager_r(Thread):
             try:
                 data = self.clientsock.recv(1024)
             except socket.error as msg:
-                if msg.errno in (EBADF,):
-                    break
-                raise
+                if msg.errno not in (EBADF,):
+                    ED2.callFromThread(self.clim.shutdown)
+                break
             if len(data) == 0:
                 ED2.callFromThread(self.clim.shutdown)
                 break
-- 
2.43.0


From b42f7b129bb6670ff704ace2953fb44ea338339d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:07:18 +0000
Subject: [PATCH 097/114] fix: answers lost when operator's client ends its
 side of connection

---
 sippy/CLIManager.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/sippy/CLIManager.py b/sippy/CLIManager.py
index 74a8493..a930647 100644
--- a/sippy/CLIManager.py
+++ b/sippy/CLIManager.py
@@ -245,7 +245,8 @@ class _CLIManager_r(Thread):
                     ED2.callFromThread(self.clim.shutdown)
                 break
             if len(data) == 0:
-                ED2.callFromThread(self.clim.shutdown)
+                # client may still be waiting for answers to what it has sent
+                ED2.callFromThread(self.clim.close)
                 break
             try:
                 rbuffer += data.decode('ascii')
-- 
2.43.0


From a4dbd96a4d317fa25f99f7676edf2cb4b6f08398 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:07:18 +0000
Subject: [PATCH 098/114] fix: no operator connection was accepted after
 accept() had failed once

---
 sippy/CLIManager.py | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/sippy/CLIManager.py b/sippy/CLIManager.py
index a930647..69b0f3e 100644
--- a/sippy/CLIManager.py
+++ b/sippy/CLIManager.py
@@ -33,6 +33,7 @@ from errno import EPIPE, ENOTCONN, EBADF, ECONNABORTED
 from select import poll, POLLIN, POLLNVAL
 
 from threading import Thread, Condition
+from time import sleep
 
 from sippy.Core.Exceptions import dump_exception
 from sippy.Core.EventDispatcher import ED2
@@ -83,8 +84,10 @@ class _Acceptor(Thread):
                     continue
                 elif why.errno == EBADF:
                     break
-                else:
-                    raise
+                dump_exception('CLIConnectionManager: unhandled exception accepting incoming connection')
+                # most likely out of some resource, wait for it to become available
+                sleep(0.1)
+                continue
             except Exception:
                 dump_exception('CLIConnectionManager: unhandled exception accepting incoming connection')
                 break
-- 
2.43.0


From 1555d4b73a1459d15553eeddeb794d155c03bbd0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:18:35 +0000
Subject: [PATCH 099/114] fix: copying media of a side not known to the relay
 yet failed

---
 sippy/Rtp_proxy/Session/side.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/sippy/Rtp_proxy/Session/side.py b/sippy/Rtp_proxy/Session/side.py
index 5cf265b..6be1701 100644
--- a/sippy/Rtp_proxy/Session/side.py
+++ b/sippy/Rtp_proxy/Session/side.py
@@ -252,7 +252,7 @@ class _rtpps_side(object):
     def _copy(self, rtpps, remote_ip, remote_port, result_callback = None, index = 0):
         if not self.session_exists:
             up = update_params()
-            up.rtpps = self
+            up.rtpps = rtpps
             up.index = index
             up.result_callback = partial(self.__copy, remote_ip, remote_port, result_callback, index)
             self.update(up)
-- 
2.43.0


From 76582197d61ebd0388660d4306188222f22e739c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:18:35 +0000
Subject: [PATCH 100/114] fix: failure to set stream up for playing or
 recording was never reported

---
 sippy/Rtp_proxy/Session/side.py | 12 ++++++++++--
 sippy/Rtp_proxy/session.py      | 10 +++++++---
 2 files changed, 17 insertions(+), 5 deletions(-)

diff --git a/sippy/Rtp_proxy/Session/side.py b/sippy/Rtp_proxy/Session/side.py
index 6be1701..43b01a3 100644
--- a/sippy/Rtp_proxy/Session/side.py
+++ b/sippy/Rtp_proxy/Session/side.py
@@ -121,7 +121,11 @@ class _rtpps_side(object):
         ur = up.process_rtpp_result(result)
         self.rinfo_hst.append(ur)
 
-    def __play(self, prompt_name, times, result_callback, index, result, rtpps):
+    def __play(self, prompt_name, times, result_callback, index, result, rtpps, ex = None):
+        if ex is not None:
+            if result_callback is not None:
+                result_callback(None)
+            return
         from_tag, to_tag = self.gettags(rtpps)
         command = 'P%d %s %s %s %s %s' % (times, '%s-%d' % (rtpps.call_id, index), prompt_name, self.codecs, from_tag, to_tag)
         rtpps.rtpp_seq.send_command(command, result_callback)
@@ -259,7 +263,11 @@ class _rtpps_side(object):
             return
         self.__copy(remote_ip, remote_port, result_callback, index, None, rtpps)
 
-    def __copy(self, remote_ip, remote_port, result_callback, index, result, rtpps):
+    def __copy(self, remote_ip, remote_port, result_callback, index, result, rtpps, ex = None):
+        if ex is not None:
+            if result_callback is not None:
+                result_callback(None)
+            return
         from_tag, to_tag = self.gettags(rtpps)
         command = 'C %s udp:%s:%d %s %s' % ('%s-%d' % (rtpps.call_id, index), remote_ip, remote_port, from_tag, to_tag)
         rtpps.rtpp_seq.send_command(command, result_callback)
diff --git a/sippy/Rtp_proxy/session.py b/sippy/Rtp_proxy/session.py
index 618ba50..2a7ef3d 100644
--- a/sippy/Rtp_proxy/session.py
+++ b/sippy/Rtp_proxy/session.py
@@ -137,15 +137,19 @@ class Rtp_proxy_session(object):
             return
         first_stage(result='dummy', rtpps=None)
 
-    def _start_recording_a(self, make_command, next_stage, result, rtpps):
+    def _start_recording_a(self, make_command, next_stage, result, rtpps, ex=None):
         if result is None:
-            return next_stage(None)
+            if next_stage is not None:
+                next_stage(None)
+            return
         command = make_command('a')
         return self.rtpp_seq.send_command(command, next_stage)
 
     def _start_recording_o(self, make_command, result_callback, result):
         if result is None:
-            return result_callback(None)
+            if result_callback is not None:
+                result_callback(None)
+            return
         command = make_command('o')
         return self.rtpp_seq.send_command(command, result_callback)
 
-- 
2.43.0


From 643b450c716032ca5aa6cd6389d7454fcd3f8351 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:18:35 +0000
Subject: [PATCH 101/114] fix: recording without flags sent command RNone or
 CNone to the relay

---
 sippy/Rtp_proxy/session.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/sippy/Rtp_proxy/session.py b/sippy/Rtp_proxy/session.py
index 2a7ef3d..b9951da 100644
--- a/sippy/Rtp_proxy/session.py
+++ b/sippy/Rtp_proxy/session.py
@@ -118,6 +118,8 @@ class Rtp_proxy_session(object):
         return self.callee._copy(self, remote_ip, remote_port, result_callback, index)
 
     def start_recording(self, rname=None, result_callback=None, index=0, rflags=None, only_a=False):
+        if rflags is None:
+            rflags = ''
         def make_command(side):
             t1 = self.from_tag if side == 'a' else self.to_tag
             t2 = self.to_tag if side == 'a' else self.from_tag
-- 
2.43.0


From ca5458868139b48ad34a230f163e20bdcc63f6ef Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:18:35 +0000
Subject: [PATCH 102/114] fix: no statistics were reported at all when relay
 does not answer

---
 sippy/Rtp_proxy/session.py | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/sippy/Rtp_proxy/session.py b/sippy/Rtp_proxy/session.py
index b9951da..33fd412 100644
--- a/sippy/Rtp_proxy/session.py
+++ b/sippy/Rtp_proxy/session.py
@@ -182,12 +182,13 @@ class Rtp_proxy_session(object):
         self.rtp_proxy_client.send_command(command, self.stats_result, (result_callback, callback_parameters))
 
     def stats_result(self, result, args, ex=None):
-        t1 = result.split()
         result_callback, callback_parameters = args
-        if len(t1) == 1:
+        try:
+            ttl, caller_rcount, callee_rcount, fwd_rcount, drop_rcount = [int(x) for x in result.split()]
+        except (AttributeError, ValueError):
+            # No answer or error
             result_callback(None, *callback_parameters)
             return
-        ttl, caller_rcount, callee_rcount, fwd_rcount, drop_rcount = [int(x) for x in t1]
         result_callback((ttl, caller_rcount, callee_rcount, fwd_rcount, drop_rcount), *callback_parameters)
 
     def __del__(self):
-- 
2.43.0


From 005d3fd0dbc42b9735034469d040c36ee677e33c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:18:35 +0000
Subject: [PATCH 103/114] fix: playing to unknown side without callback raised
 exception on main loop

---
 sippy/Rtp_proxy/Session/side.py | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/sippy/Rtp_proxy/Session/side.py b/sippy/Rtp_proxy/Session/side.py
index 43b01a3..6a35225 100644
--- a/sippy/Rtp_proxy/Session/side.py
+++ b/sippy/Rtp_proxy/Session/side.py
@@ -132,7 +132,8 @@ class _rtpps_side(object):
 
     def _play(self, rtpps, prompt_name, times = 1, result_callback = None, index = 0):
         if not self.session_exists:
-            ED2.callFromThread(result_callback, None)
+            if result_callback is not None:
+                ED2.callFromThread(result_callback, None)
             return
         otherside = self.getother(rtpps)
         if not otherside.session_exists:
@@ -146,7 +147,8 @@ class _rtpps_side(object):
 
     def _stop_play(self, rtpps, result_callback = None, index = 0):
         if not self.session_exists:
-            ED2.callFromThread(result_callback, None)
+            if result_callback is not None:
+                ED2.callFromThread(result_callback, None)
             return
         from_tag, to_tag = self.gettags(rtpps)
         command = 'S %s %s %s' % ('%s-%d' % (rtpps.call_id, index), from_tag, to_tag)
-- 
2.43.0


From 6da82d49075212b4585ee3b74e4288c1f0bee50e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:18:35 +0000
Subject: [PATCH 104/114] fix: prompt was played to a side with codecs 'None'
 before its description is known

---
 sippy/Rtp_proxy/Session/side.py | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/sippy/Rtp_proxy/Session/side.py b/sippy/Rtp_proxy/Session/side.py
index 6a35225..cbe77a0 100644
--- a/sippy/Rtp_proxy/Session/side.py
+++ b/sippy/Rtp_proxy/Session/side.py
@@ -135,6 +135,11 @@ class _rtpps_side(object):
             if result_callback is not None:
                 ED2.callFromThread(result_callback, None)
             return
+        if self.codecs is None:
+            # Stream has been set up, but what the party can play is not known
+            if result_callback is not None:
+                ED2.callFromThread(result_callback, None)
+            return
         otherside = self.getother(rtpps)
         if not otherside.session_exists:
             up = update_params()
-- 
2.43.0


From 479233642a6dad4fa8ec46abdfff8ad537bd3489 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:20:12 +0000
Subject: [PATCH 105/114] fix: relay's answer arriving after its session is
 deleted raised exception

---
 sippy/Rtp_proxy/Session/side.py   | 1 +
 sippy/Rtp_proxy/Session/update.py | 3 ++-
 2 files changed, 3 insertions(+), 1 deletion(-)

diff --git a/sippy/Rtp_proxy/Session/side.py b/sippy/Rtp_proxy/Session/side.py
index cbe77a0..7adb96b 100644
--- a/sippy/Rtp_proxy/Session/side.py
+++ b/sippy/Rtp_proxy/Session/side.py
@@ -72,6 +72,7 @@ class _rtpps_side(object):
             # The stream is about to be (re-)created
             up.rtpps.media_timeout_index = None
         rtpc = up.rtpps.rtp_proxy_client
+        up.proxy_address = rtpc.proxy_address
         rtpq = up.rtpps.rtpp_seq
         options = up.options
         if rtpc.sbind_supported:
diff --git a/sippy/Rtp_proxy/Session/update.py b/sippy/Rtp_proxy/Session/update.py
index 21dc122..ee4922a 100644
--- a/sippy/Rtp_proxy/Session/update.py
+++ b/sippy/Rtp_proxy/Session/update.py
@@ -35,6 +35,7 @@ class update_params():
     index = 0
     atype = 'IP4'
     subcommands = None
+    proxy_address = None
 
     def __init__(self):
         self.subcommands = []
@@ -95,7 +96,7 @@ class update_params():
             if len(t1) > 2 and t1[2] == '6':
                 ur.family = 'IP6'
         else:
-            ur.rtpproxy_address = self.rtpps.rtp_proxy_client.proxy_address
+            ur.rtpproxy_address = self.proxy_address
         # Old-style request to put session on hold, convert it into
         # a new-style request.
         if self.atype == 'IP4' and self.remote_ip == '0.0.0.0':
-- 
2.43.0


From f8e63db7b2902b36a04ac90be84f671cf2d7369a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:27:48 +0000
Subject: [PATCH 106/114] fix: malformed request received over websocket was
 never answered

---
 sippy/SipTransactionManager.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/sippy/SipTransactionManager.py b/sippy/SipTransactionManager.py
index b31bef3..4488ce0 100644
--- a/sippy/SipTransactionManager.py
+++ b/sippy/SipTransactionManager.py
@@ -345,7 +345,7 @@ class SipTransactionManager(object):
                 if isinstance(exception, SipParseError):
                     resp = exception.sip_response
                 if resp is not None:
-                    self.transmitMsg(server, resp, ra.address, checksum)
+                    self.transmitMsg(server, resp, (ra.received, ra.address[1]), checksum)
                 else:
                     self.l1rcache[checksum] = SipTMRetransmitO()
                 return
-- 
2.43.0


From f909221c534407db7f6b06e6dbe788fb20001405 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:28:35 +0000
Subject: [PATCH 107/114] fix: redirect by websocket user agent was made to
 point to itself

---
 sippy/SipTransactionManager.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/sippy/SipTransactionManager.py b/sippy/SipTransactionManager.py
index 4488ce0..1ed9bad 100644
--- a/sippy/SipTransactionManager.py
+++ b/sippy/SipTransactionManager.py
@@ -328,7 +328,8 @@ class SipTransactionManager(object):
                     curl = cbody.getUrl()
                     if check1918(curl.host):
                         curl.host, curl.port = ra.address
-            if ra.transport == 'wss' and resp.countHFs('contact') > 0:
+            # Contacts of redirect are somebody else's
+            if ra.transport == 'wss' and resp.getSCode()[0] // 100 != 3 and resp.countHFs('contact') > 0:
                 cbody = resp.getHFBody('contact')
                 if not cbody.asterisk:
                     curl = cbody.getUrl()
-- 
2.43.0


From 14cf82e11840d0ae93aeca3bc4f9f0bd1755e906 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:33:01 +0000
Subject: [PATCH 108/114] fix: websocket connection lost at once was never
 forgotten

---
 sippy/Wss_server.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/sippy/Wss_server.py b/sippy/Wss_server.py
index 3ba570c..47454e3 100644
--- a/sippy/Wss_server.py
+++ b/sippy/Wss_server.py
@@ -83,16 +83,16 @@ class Wss_server(Thread, Network_server):
 
     async def ws_to_sip(self, websocket):
         print(f'New connection {websocket.id=}')
-        queue = AsyncQueue()
-        sender = create_task(self.sip_to_ws(queue, websocket))
         conn_id = f'{websocket.id}.invalid'
-        self.connections[conn_id] = (websocket, queue)
         if self.uopts.laddress[0] == '0.0.0.0':
             sock = websocket.transport.get_extra_info('socket')
             addr = sock.getsockname()
             ED2.callFromThread(self.set_laddress, addr)
         address = Remote_address(websocket.remote_address, self.transport)
         address.received = conn_id
+        queue = AsyncQueue()
+        sender = create_task(self.sip_to_ws(queue, websocket))
+        self.connections[conn_id] = (websocket, queue)
         try:
             while True:
                 data = await websocket.recv()
-- 
2.43.0


From 3485e343dff1ad795dec65cb5677671ed7316cec Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:49:48 +0000
Subject: [PATCH 109/114] fix: tel: URL with valueless parameter was refused

---
 sippy/SipURL.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/sippy/SipURL.py b/sippy/SipURL.py
index d80347f..68a06d4 100644
--- a/sippy/SipURL.py
+++ b/sippy/SipURL.py
@@ -117,8 +117,8 @@ class SipURL(object):
             for part in parts[1:]:
                 # The RFC-3261 suggests the user parameter keys should
                 # be converted to lower case.
-                k, v = part.split('=')
-                self.userparams.append(k.lower() + '=' + v)
+                k, eq, v = part.partition('=')
+                self.userparams.append(k.lower() + eq + v)
 
     def parseSipURL(self, url, relaxedparser):
         ear = url.find('@') + 1
-- 
2.43.0


From 61ab18385417949292caae813bf1b836968d4be0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:52:45 +0000
Subject: [PATCH 110/114] fix: tel: URL in From or To became sip: one without
 host

---
 sippy/SipURL.py | 13 +++++--------
 1 file changed, 5 insertions(+), 8 deletions(-)

diff --git a/sippy/SipURL.py b/sippy/SipURL.py
index 68a06d4..589cd4e 100644
--- a/sippy/SipURL.py
+++ b/sippy/SipURL.py
@@ -95,20 +95,17 @@ class SipURL(object):
         self.scheme, url = parts
         if self.scheme == 'tel':
             if SipConf.autoconvert_tel_url:
-                self.convertTelURL(url, relaxedparser)
+                self.convertTelURL(url)
             else:
                 raise ValueError('tel: scheme is not supported')
         else:
             self.parseSipURL(url, relaxedparser)
 
-    def convertTelURL(self, url, relaxedparser):
+    def convertTelURL(self, url):
         self.scheme = 'sip'
-        if relaxedparser:
-            self.host = ''
-        else:
-            self.host = SipConf.my_address
-            self.port = SipConf.my_port
-            self.transport = SipConf.my_transport
+        self.host = SipConf.my_address
+        self.port = SipConf.my_port
+        self.transport = SipConf.my_transport
         parts = url.split(';')
         self.username = unquote(parts[0])
         if len(parts) > 1:
-- 
2.43.0


From 1762c71c4bc6e00e16d3579833c828a3b61d59b7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:59:32 +0000
Subject: [PATCH 111/114] fix: command objects were sent to relay over stream
 socket without end of line

---
 sippy/Rtp_proxy/Client/stream.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/sippy/Rtp_proxy/Client/stream.py b/sippy/Rtp_proxy/Client/stream.py
index 1a7bc39..69b5d1f 100644
--- a/sippy/Rtp_proxy/Client/stream.py
+++ b/sippy/Rtp_proxy/Client/stream.py
@@ -68,7 +68,7 @@ class Rtp_proxy_client_stream(Rtp_proxy_client_net):
             self.rtpp_class._reconnect(self, self.address)
         if isinstance(command, Rtp_proxy_cmd):
             command = str(command)
-        elif not command.endswith('\n'):
+        if not command.endswith('\n'):
             command += '\n'
         self.wi.put((command, result_callback, callback_parameters))
 
-- 
2.43.0


From 5ed3f09eed4f3093ee745608ac577eef7e5cf1f9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 08:04:54 +0000
Subject: [PATCH 112/114] fix: requests inside dialogs failed with outbound
 proxy and recorded route

---
 sippy/SipURL.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/sippy/SipURL.py b/sippy/SipURL.py
index 589cd4e..373a9b9 100644
--- a/sippy/SipURL.py
+++ b/sippy/SipURL.py
@@ -288,7 +288,7 @@ class SipURL(object):
 
     def getCopy(self):
         return SipURL(username = self.username, password = self.password, host = self.host, port = self.port, \
-          headers = self.headers.copy() if self.headers != None else None, usertype = self.usertype, transport = self.transport, ttl = self.ttl, \
+          headers = dict(self.headers) if self.headers != None else None, usertype = self.usertype, transport = self.transport, ttl = self.ttl, \
           maddr = self.maddr, method = self.method, tag = self.tag, other = list(self.other), \
           userparams = list(self.userparams), lr = self.lr, scheme = self.scheme)
 
-- 
2.43.0


From c53e13346f7c13e9569fe1d262edabf0c84966e5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 08:16:10 +0000
Subject: [PATCH 113/114] fix: options of UDP socket were lost, so that port in
 use was not noticed at start

---
 sippy/Udp_server.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/sippy/Udp_server.py b/sippy/Udp_server.py
index 81a7bd9..72d7d84 100755
--- a/sippy/Udp_server.py
+++ b/sippy/Udp_server.py
@@ -144,7 +144,7 @@ class Udp_server_opts(Network_server_opts):
     def __init__(self, *args, family = None, o = None):
         super().__init__(*args, o=o)
         if o != None:
-            self.family = o.family
+            self.family, self.flags, self.nworkers = o.family, o.flags, o.nworkers
             return
         if family == None:
             if self.laddress != None and self.laddress[0].startswith('['):
-- 
2.43.0


From 1cc15713f50d640820328b4d68e23bc2a49d2d4d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 08:19:37 +0000
Subject: [PATCH 114/114] fix: error when receiving ended the UDP receiver
 thread for good

---
 sippy/Udp_server.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/sippy/Udp_server.py b/sippy/Udp_server.py
index 72d7d84..2610139 100755
--- a/sippy/Udp_server.py
+++ b/sippy/Udp_server.py
@@ -116,10 +116,10 @@ class AsyncReceiver(Thread):
                     break
                 if why.errno in (EINTR,):
                     continue
-                dump_exception('Udp_server[%d]: unhandled exception when receiving incoming data' % self.my_pid)
+                dump_exception('Udp_server: unhandled exception when receiving incoming data')
                 continue
             except Exception:
-                dump_exception('Udp_server[%d]: unhandled exception when receiving incoming data' % self.my_pid)
+                dump_exception('Udp_server: unhandled exception when receiving incoming data')
                 sleep(1)
                 continue
             if self.userv.uopts.family == socket.AF_INET6:
-- 
2.43.0

