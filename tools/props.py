#!/usr/bin/env python3
"""Generates /verif/properties.jsonl (single source of the property texts)."""
import json, os
P = []


def prop(id, title, statement, over, qtext, why, files, mechanism, state=None, observe=None, hook=None):
    d = {'id': id, 'title': title, 'statement': ' '.join(statement.split()),
         'quantifier': {'over': over, 'text': ' '.join(qtext.split())},
         'why_tests_cant': ' '.join(why.split()),
         'anchors': {'files': files, 'mechanism': [{'name': n, 'where': w} for n, w in mechanism]}}
    if state:
        d['anchors']['state'] = [{'name': n, 'meaning': m, 'where': w} for n, m, w in state]
    if observe:
        d['anchors']['observe_at'] = observe
    if hook is not None:
        d['anchors']['hook_needed'] = hook
    assert len(title) <= 80, title
    P.append(d)


prop('C01', 'Client transactions: retransmission, ACK, single outcome, clean expiry', '''
For every order and timing of responses (including lost, duplicated, late and reordered ones) a request sent to a peer is retransmitted byte-identically
at 0.5 s, doubling, only until the first response or 32 s; the sender is told each distinct provisional response, at most one final response - a locally made 408 when none comes in
time (32 s before any provisional, the request's own expiry after one) - and nothing after it.
Every final answer to an INVITE is acknowledged: failures with an ACK of the same branch, request-URI and CSeq number, successes with an ACK of a new branch sent to the answer's
contact along its recorded route (immediately, or when the application releases it), and a repeated copy of an answer is acknowledged again without being reported again.
Once finished and past its linger time the transaction leaves no state or timer behind.''',
     ['schedules', 'histories', 'fault_sequences'],
     '''all sequences of response deliveries (provisional/2xx/3xx-6xx, dup, different tag), timer firings, application cancel/ack actions, up to the depth bound, for INVITE and non-INVITE requests, with and without Expires, immediate or deferred ACK''',
     '''The existing tests never run the transaction layer against a clock; retransmission schedules, late duplicates and ACK rules only show in particular interleavings of timers with messages.''',
     ['sippy/SipTransactionManager.py', 'sippy/SipRequest.py'],
     [('response handling and timers of client transactions', 'sippy/SipTransactionManager.py: incomingResponse, timerA, timerB, timerC, sendACK'),
      ('retransmission cache', 'sippy/SipTransactionManager.py: l1rcache/l2rcache, rCachePurge'),
      ('ACK construction', 'sippy/SipRequest.py: genACK')],
     [('tclient', 'live client transactions by id', 'sippy/SipTransactionManager.py')],
     ['datagrams handed to the UDP layer', 'responses passed to the response callback'])

prop('C02', 'Server transactions: once-only delivery, faithful re-answering, final repeats', '''
A request is handed to the application exactly once however often it is repeated; every repeat is answered with exactly the last response sent for it (or nothing if none was sent yet),
and every response goes back along the request's Via path with its From, Call-ID, CSeq and Via headers unchanged.
A final answer to an INVITE is repeated at 0.5 s, doubling, until the matching ACK arrives or 32 s pass, in which case the application is told exactly once that no ACK came, and the ACK is reported to it at most once.
A request whose own Via branch shows it has looped gets 482, a CANCEL for nothing pending gets 481, and stray ACKs and unmatched responses are dropped silently.''',
     ['schedules', 'histories', 'fault_sequences'],
     'all interleavings of request arrival/duplication, application answers, ACK/CANCEL arrival, timer firings and expiry, up to the depth bound, for INVITE and non-INVITE requests',
     'The existing tests never exercise a server transaction; the guarantees are about repeats that arrive at every possible point of its life.',
     ['sippy/SipTransactionManager.py'],
     [('request demultiplexing and dedup', 'sippy/SipTransactionManager.py: incomingRequest'),
      ('response sending and timers', 'sippy/SipTransactionManager.py: sendResponse, timerD, timerE, timerF, transmitMsg')],
     [('tserver', 'live server transactions by id', 'sippy/SipTransactionManager.py')],
     ['datagrams handed to the UDP layer', 'request callback invocations'])

prop('C03', 'Cancelling an INVITE transaction, from either side, always resolves', '''
A pending outgoing INVITE that is cancelled causes exactly one CANCEL, never before the first provisional response nor after a final one, that carries the INVITE's request-URI, branch, From, To, Call-ID, Route set, CSeq number and the reasons given by the caller.
An incoming CANCEL for an INVITE that has no final answer is answered 200, the INVITE is answered 487 and the application is told exactly once; for one already answered or unknown it is refused with 481 and changes nothing.
An INVITE whose Expires time passes unanswered is ended the same way with 487.''',
     ['schedules', 'histories'],
     'every placement of cancel/CANCEL/expiry relative to provisional and final responses, duplicates and timers, up to the depth bound',
     'Races between cancellation and answers need specific interleavings that no existing test creates.',
     ['sippy/SipTransactionManager.py', 'sippy/SipRequest.py'],
     [('cancelTransaction, cancelPending', 'sippy/SipTransactionManager.py'), ('doCancel', 'sippy/SipTransactionManager.py'), ('genCANCEL', 'sippy/SipRequest.py')],
     None, ['datagrams', 'cancel callback', 'response callback'])

prop('C04', 'In-dialog requests follow the peer contact, the recorded route, tags and CSeq', '''
Every request a user agent sends inside a dialog goes to the contact the peer gave when the dialog was set up, carries the route recorded when the dialog was set up (in order for the called side, reversed for the calling side, with loose and strict first hops addressed as SIP prescribes),
the dialog's Call-ID and the right local and remote tags, and a CSeq number strictly greater than that of any earlier request in its direction other than ACK and CANCEL, which repeat the INVITE's.
It is transmitted to the first route hop, or to the contact when there is none, unless an outbound proxy is configured, which then gets it (the ACK to a 2xx aside).''',
     ['inputs', 'configurations', 'histories'],
     'all combinations of role, 0-3 recorded hops each loose or strict, contact/URI forms, early and forked answers, outbound proxy, answers with and without Record-Route, followed by each in-dialog request',
     'Route-set handling has a combinatorial input space; existing tests cover none of it.',
     ['sippy/UA.py', 'sippy/UacStateTrying.py', 'sippy/UacStateRinging.py', 'sippy/UasStateIdle.py', 'sippy/UaStateConnected.py', 'sippy/UacStateIdle.py', 'sippy/SipRequest.py'],
     [('update_ua, genRequest, routes handling', 'sippy/UA.py'), ('route set capture', 'sippy/UacStateTrying.py, sippy/UasStateIdle.py')],
     [('rTarget/rAddr/routes/lCSeq', 'remote target, next hop, route set, CSeq counters', 'sippy/UA.py')],
     ['request line, Route, To, From, CSeq and destination of each datagram'])

prop('C05', 'A user agent translates signalling to call events once, in order, faithfully', '''
Whatever a peer sends and whenever, the events a user agent reports for a call form a legal call history: at most one attempt, then ringing/progress, at most one answer, and exactly one terminating event (failure, redirect or disconnect), after which none is reported;
each event carries the code, reason, body, redirect targets and origin time of the message that caused it.
Events given to the agent by its owner turn into exactly the corresponding SIP message with the same code, reason and body or, when they make no sense in the current state, into nothing.''',
     ['schedules', 'histories', 'inputs'],
     'every sequence up to the depth bound of peer messages, owner events, retransmissions and timer expiries for calling and answering agents',
     'The per-state classes interact through histories; existing tests do not run calls at all.',
     ['sippy/UA.py', 'sippy/UacStateTrying.py', 'sippy/UacStateRinging.py', 'sippy/UacStateCancelling.py', 'sippy/UacStateUpdating.py', 'sippy/UasStateIdle.py', 'sippy/UasStateTrying.py', 'sippy/UasStateRinging.py', 'sippy/UasStateProgressing.py', 'sippy/UasStateUpdating.py', 'sippy/UaStateConnected.py', 'sippy/CCEvents.py'],
     [('state classes recvEvent/recvRequest/recvResponse', 'sippy/Ua*State*.py'), ('emitEvent/recvEvent', 'sippy/UA.py')],
     None, ['events emitted by the agent', 'datagrams sent by it'])

prop('C06', 'A call leg is always released: peer informed once, no state or timers left', '''
However a call leg ends - by its owner, by the peer, by timeout, by error or by both sides at once - the peer learns it exactly once by the right means (a final failure answer or nothing more on an unanswered incoming call, CANCEL on an unanswered outgoing call, BYE on an answered one, also when the answer crosses the CANCEL, and 200 to its own BYE),
the disconnect, failure or death notification to the owner happens exactly once,
and after the protocol's linger time no timer, transaction or dialog entry of that leg remains.''',
     ['schedules', 'histories', 'fault_sequences'],
     'every sequence up to the depth bound of peer messages, owner events, losses and timer expiries followed by quiescence',
     'Leaks and missing BYEs come from rare crossings (200 vs CANCEL, BYE vs re-INVITE) that tests never schedule.',
     ['sippy/UA.py', 'sippy/UacStateCancelling.py', 'sippy/UaStateConnected.py', 'sippy/UacStateTrying.py', 'sippy/UacStateRinging.py', 'sippy/UasStateTrying.py', 'sippy/UaStateDead.py', 'sippy/UacStateUpdating.py', 'sippy/UasStateUpdating.py', 'sippy/SipTransactionManager.py'],
     [('changeState, cancelAllTimers, delete', 'sippy/UA.py'), ('req_consumers register/unregister', 'sippy/SipTransactionManager.py')],
     [('tm.req_consumers', 'dialogs able to receive in-dialog requests', 'sippy/SipTransactionManager.py')],
     ['datagrams', 'timer wheel', 'transaction and consumer tables', 'callbacks'])

prop('C07', 'Time limits on a call leg fire exactly when due and never otherwise', '''
A leg with a no-reply limit that sees no answer of any kind, a no-progress limit that sees no ringing-or-better, or a setup limit that sees no answer is ended and its owner told by a disconnect exactly at that time after the attempt; a connected leg with a credit limit is disconnected exactly when the credit has run from the answer, and the smallest applicable limit wins.
A limit whose condition was met in time never fires.''',
     ['schedules', 'configurations', 'histories'],
     'all combinations of limits (unset/small/large, equal ones included) with all placements of 1xx/180/183/200 before and after each deadline, both roles',
     'Existing tests involve no call timers.',
     ['sippy/UA.py', 'sippy/UacStateIdle.py', 'sippy/UacStateTrying.py', 'sippy/UacStateRinging.py', 'sippy/UasStateIdle.py', 'sippy/UasStateTrying.py'],
     [('no_reply_time, no_progress_time, expire_time, credit_times', 'sippy/UA.py: startNoReplyTimer, startNoProgressTimer, startExpireTimer, startCreditTimer')],
     None, ['event emission times', 'datagram times'])

prop('C08', 'Authentication challenges to outgoing calls are answered once and correctly', '''
A calling user agent that holds credentials answers a 401 or 407 challenge by repeating the INVITE in the same dialog with a higher CSeq and a digest computed over its credentials, the method, its request-URI and the server's realm, nonce, opaque, qop and algorithm;
a challenge it cannot answer - no credentials, unsupported algorithm or protection, or a second challenge - ends the attempt with the failure the server gave.
The retried attempt keeps the call's body and extra headers and all its time limits.''',
     ['inputs', 'histories'],
     'all challenge forms (401/407, algorithms, qop sets, opaque, several challenges, repeated challenges) at each point of the attempt, for INVITE and session refresh',
     'Existing digest tests check the hash functions on fixed strings, never the dialog behaviour.',
     ['sippy/UacStateTrying.py', 'sippy/UA.py', 'sippy/SipRequest.py', 'sippy/SipAuthorization.py', 'sippy/SipWWWAuthenticate.py', 'sippy/UaStateConnected.py', 'sippy/Security/SipNonce.py'],
     [('challenge processing', 'sippy/UacStateTrying.py'), ('genAuthHF', 'sippy/SipWWWAuthenticate.py'), ('DigestCalc*', 'sippy/SipAuthorization.py')],
     None, ['Authorization header of the retried INVITE'])

prop('C09', 'Mid-call session changes reach the other side and are always answered', '''
A re-INVITE, UPDATE or INFO inside an established call is reported to the owner exactly once with its body, or answered directly when nothing has changed, and the owner's answer is returned to the peer with its code and body; a session change asked for by the owner is sent to the peer as re-INVITE and the peer's answer reported back, each acknowledged.
When both sides change at once, or a change meets a hang-up, the later one is refused (or the call ends) and neither side is left waiting.
A refused change leaves the call up with its earlier session, and an offer delayed to the ACK is reported and answered likewise.''',
     ['schedules', 'histories', 'inputs'],
     'all interleavings up to the depth bound of owner updates, peer re-INVITE/INFO/BYE/CANCEL, answers 1xx/200/4xx/408, SDP changed/unchanged/absent',
     'No existing test drives a dialog past its establishment.',
     ['sippy/UaStateConnected.py', 'sippy/UacStateUpdating.py', 'sippy/UasStateUpdating.py', 'sippy/CCEvents.py'],
     [('UPDATE handling', 'sippy/UaStateConnected.py, sippy/UacStateUpdating.py, sippy/UasStateUpdating.py')],
     None, ['datagrams', 'events emitted'])

prop('C10', 'The two legs of a bridged call live and die together', '''
For every call through the B2BUA, what one side signals is relayed to the other: attempt, ringing, answer, session changes and the answers to them with their bodies, and failures with their code and reason.
Whenever one side ends the call, by any means and at any moment, the other side is ended too, and once both are quiet the B2BUA holds nothing for the call.''',
     ['schedules', 'histories', 'fault_sequences'],
     'all interleavings up to the depth bound of caller messages (INVITE, dup, CANCEL, ACK, re-INVITE, BYE), callee messages (1xx, 200, failure, BYE, re-INVITE), losses and timers',
     'There is no test of the B2BUA call controller.',
     ['sippy/b2bua.py', 'sippy/UA.py'],
     [('CallController.recvEvent', 'sippy/b2bua.py'), ('aDead/oDead/disconnect', 'sippy/b2bua.py')],
     [('ccmap', 'live calls', 'sippy/b2bua.py')],
     ['datagrams towards both sides', 'ccmap'])

prop('C11', 'Routes are tried in order until one answers; huntstop and final cause kept', '''
A call with several routes tries them one at a time in their grouped and listed order, going to the next only after the previous failed for good before answering and its failure code is not in that route's hunt-stop list; the caller sees one answer or, when no route is left, exactly the last failure's code and reason.
Each attempt uses its own route's destination, credentials, time limits, caller name and extra headers.
A caller who gives up stops the hunt.''',
     ['configurations', 'histories', 'schedules'],
     'all route lists of up to 3 routes with all combinations of grouping, hunt-stop lists and outcomes (answer/fail code/timeout/early media), with the caller hanging up at any step',
     'There is no test of the B2BUA call controller.',
     ['sippy/b2bua.py', 'sippy/B2B/Route.py'],
     [('placeOriginate, huntstop handling', 'sippy/b2bua.py')],
     None, ['datagrams towards routes and caller'])

prop('C12', 'Accounting: one start at answer, one stop per leg, true duration and cause', '''
With RADIUS accounting on, each accounted leg yields exactly one stop record whatever way it ends, carrying the call's id, the parties, and the correct connect time, duration, release code and releasing side; a leg that is answered also yields exactly one start record at that moment when starts are enabled, with interim records in between at the configured interval only.
A failed attempt is recorded with zero duration and its failure code.''',
     ['histories', 'configurations'],
     'all leg outcomes (answer+hangup by either side, failure of any class, redirect, cancel, timeout, never-started) for caller and callee legs, with all start/alive settings',
     'No existing test touches accounting.',
     ['sippy/RadiusAccounting.py', 'sippy/b2bua.py'],
     [('conn/disc/asend', 'sippy/RadiusAccounting.py')],
     None, ['records handed to the RADIUS client'])

prop('C13', 'Only admitted calls are placed; refused callers get the right refusal', '''
A call is placed only if the address it really comes from is accepted, whatever its headers say, and, when authorisation is on, the authority accepted it; when digest is the only way a caller without credentials is answered at once with a fresh challenge and the authority is not asked. Everyone else gets a single refusal - 403, or a 401 with a challenge when digest is on and no credentials were given, or 500 when the authority's routing information is missing or unusable - and nothing is sent to any callee.
The authority is asked exactly once per call, with the caller's address, numbers, call id, credentials and extra attributes as they are in the call (behind a proxy: the address of the last element before it), also in the accounting records; its caller name and number replace the caller's own.
A caller that hangs up while being authorised is released, and a late verdict for it places no call.''',
     ['configurations', 'schedules', 'inputs'],
     'all combinations of source address, admission settings, credentials/nonce form, authority verdict and timing, and caller CANCEL at each step',
     'There is no test of the B2BUA call controller.',
     ['sippy/b2bua.py', 'sippy/RadiusAuthorisation.py', 'sippy/Security/SipNonce.py'],
     [('CallMap.recvRequest', 'sippy/b2bua.py'), ('rDone', 'sippy/b2bua.py')],
     None, ['datagrams', 'authorisation requests'])

prop('C15', 'The B2BUA relays what is configured: numbers, headers, hop count, identity', '''
The outgoing call carries the number and destination produced by the configured translations, exactly the configured pass-through headers of the incoming call, a hop count one less than the incoming one, the incoming body filtered as configured, and a Call-ID that is hidden when so configured and recognisably derived otherwise.
A call whose hop count is used up is refused with 483 and never placed.''',
     ['inputs', 'configurations'],
     'all combinations of hop count, pass-header lists, hide-call-id, caller-id forms, body forms and static/dynamic translation rules in the enumerated grid',
     'There is no test of the B2BUA call controller.',
     ['sippy/b2bua.py', 'sippy/B2B/Transforms.py', 'sippy/B2B/Route.py'],
     [('recvEvent, placeOriginate', 'sippy/b2bua.py')],
     None, ['first INVITE towards the callee'])

prop('C16', 'Operator commands end exactly the calls named and report the truth', '''
A disconnect command (by Call-ID, or for all calls) ends exactly the calls it names, whatever state they are in, with a BYE, CANCEL or final answer to each leg, and leaves every other call untouched; a command naming no call in memory, malformed or unknown is refused with an error and changes nothing; the list commands show exactly the calls and transactions in memory, each call with the real state, address and numbers of both its legs.
The hang-up signal ends all calls; SIGTERM ends all calls and leaves the main loop; a scheduled restart leaves calls alone and restarts once the last of them is over; after either of these two new calls are refused with 503.''',
     ['histories', 'inputs'],
     'all commands with all argument forms over all small populations of calls in every state',
     'There is no test of the operator interface.',
     ['sippy/B2B/SimpleAPI.py', 'sippy/b2bua.py'],
     [('recvCommand', 'sippy/B2B/SimpleAPI.py'), ('discAll, safeRestart, safeStop, toggleDebug', 'sippy/b2bua.py')],
     None, ['command replies', 'datagrams'])

prop('C17', 'Bridged media uses relay ports on both sides and relay sessions never leak', '''
When a call goes through a media relay, every session description delivered to either party names the relay's address and the port the relay gave for that party's stream, other streams and attributes being kept; the commands to the relay name one session per call with the tags in the correct order for either side and for updates from either side.
Descriptions are delivered in order even when relay answers arrive late; a relay error or outage yields the documented fallback, and however the call ends the relay session is deleted exactly once.''',
     ['schedules', 'histories', 'fault_sequences', 'inputs'],
     'all interleavings up to the depth bound of offers/answers from both sides, relay answers (ok/error/timeout/IPv6/other address) and deletion, for 1-3 streams incl. held, disabled and non-RTP ones',
     'Existing tests cover no relay session.',
     ['sippy/Rtp_proxy/session.py', 'sippy/Rtp_proxy/Session/side.py', 'sippy/Rtp_proxy/Session/update.py', 'sippy/Rtp_proxy/Session/params.py'],
     [('update/on_sdp_change', 'sippy/Rtp_proxy/Session/side.py'), ('delete', 'sippy/Rtp_proxy/session.py')],
     None, ['commands to the relay', 'session descriptions produced'])

prop('C18', 'Codec filtering removes exactly the disallowed formats and never breaks SDP', '''
With an allowed-codec list configured (payload numbers and names), every session description passed between the parties - in the INVITE, provisional and final answers, ACK, session changes and their answers - keeps exactly the allowed formats of each RTP stream in their original order together with their own rtpmap and fmtp lines and every other line and stream, and drops the others with theirs.
If an RTP stream would be left with no format at all the description is not passed on: the call or session change is refused with 488, or the call is ended on both sides if it came in an answer.''',
     ['inputs', 'configurations'],
     'all subsets of allowed formats against all small descriptions (formats, attributes with repeated and prefix-like numbers, several streams)',
     'There is no test of the filter.',
     ['sippy/b2bua.py', 'sippy/SdpMediaDescription.py', 'sippy/SdpBody.py'],
     [('allowed_pts handling', 'sippy/b2bua.py: recvEvent'), ('optimize_a', 'sippy/SdpMediaDescription.py')],
     None, ['SDP of the INVITE towards the callee'])

prop('C19', 'Stateful proxy forwards each request and response once, along the right path', '''
A non-INVITE request (REGISTER and SUBSCRIBE when it serves the B2BUA) is forwarded once to the fixed destination with the proxy's own Via on top, one hop less left (70 where none was given, refused with 483 when none is left) and, for a REGISTER whose sender supports it, its own Path on top; everything else, body included, is preserved. It is repeated until answered.
Every response to it goes back exactly once with that Via removed to where the request came from; repeated requests are absorbed or re-answered, not forwarded again, repeated and late responses are dropped; an unresponsive destination yields one 408. Requests on their way at the same time do not get mixed up, nothing is left behind, and other methods do not pass through the B2BUA's proxy.''',
     ['histories', 'schedules', 'inputs'],
     'all histories up to the depth bound of 1-3 requests (of two clients, same call, same CSeq on another path), repeats, CANCEL, responses and passing time; all combinations of Vias, rport, hops, Path and Supported headers and bodies',
     'There is no test of the proxy.',
     ['sippy/StatefulProxy.py', 'sippy/SipTransactionManager.py'],
     [('recvRequest/recvResponse', 'sippy/StatefulProxy.py')],
     None, ['datagrams'])

prop('C20', 'Registration agent keeps the binding alive and reports every outcome', '''
The agent asks for its contact and time at start, renews before the time granted to its own contact is over (the time asked for when the answer names none) for as long as it runs, answers challenges of registrars and proxies with correct credentials at most three times in a row, retries a failed or unanswered registration after 60 s whatever the answer looked like, and uses one Call-ID with increasing CSeq throughout; only one registration is pending at a time.
Each success is reported with the granted expiry and contact, each failure with its status line, exactly once. Nothing is sent or reported after it has been stopped.''',
     ['histories', 'inputs', 'schedules'],
     'all sequences up to the depth bound of answers (2xx with various contacts and expiry, 401/407 fresh/unsupported/broken, 3xx-6xx, provisional, late, none, repeated) and stops',
     'There is no test of the agent.',
     ['sippy/SipRegistrationAgent.py', 'sippy/SipTransactionManager.py'],
     [('gotreply, doregister', 'sippy/SipRegistrationAgent.py')],
     None, ['REGISTER datagrams and their times', 'callbacks'])

prop('C21', 'Authentication nonces: accepted exactly when issued here, whole and fresh', '''
A nonce issued by this server for an algorithm is accepted by the same server for that algorithm until its lifetime (32 s) ends and rejected ever after; any altered, truncated, extended, foreign-key, other-algorithm, from-the-future or garbage nonce is rejected, never raising an error.
No two issued nonces are equal.''',
     ['inputs', 'histories'],
     'all single-character and single-bit alterations, truncations and extensions of issued nonces, all algorithm pairs, all ages around both ends of the lifetime',
     'The existing test checks one unaltered nonce per algorithm at a couple of ages.',
     ['sippy/Security/SipNonce.py', 'sippy/SipWWWAuthenticate.py'],
     [('HashOracle', 'sippy/Security/SipNonce.py')],
     None, ['validation verdicts'])

prop('C22', 'Digest verification accepts the right secret only, over every covered field', '''
A digest response made for a challenge verifies with the same user, password, realm, nonce, method, URI, algorithm, protection, nonce count, client nonce and body, and fails to verify when any one of these that the algorithm and protection cover is changed.
Every algorithm and protection offered is one that both sides can compute, and an unknown algorithm or protection never verifies.''',
     ['inputs', 'configurations'],
     'the full grid of algorithms x protection x methods x bodies x opaque/cnonce/nc forms, with every single-field change',
     'Existing tests check a few fixed vectors.',
     ['sippy/SipAuthorization.py', 'sippy/SipWWWAuthenticate.py'],
     [('DigestCalcHA1/HA2/Response, verify', 'sippy/SipAuthorization.py')],
     None, ['verification verdicts', 'an independent digest implementation'])

prop('C23', 'SIP messages survive parse, print and copy unchanged, and copies are independent', '''
Parsing any well-formed message and printing it again yields a message with the same start line, the same headers with the same meaning in the same order (Content-Type and Content-Length apart, which may move) and the same body (the bodies of provisional 100 and of 4xx to 6xx responses are ignored; so are the preamble and epilogue of multipart ones, and an absent reason phrase is made up); tel: addresses, where accepted, become sip: ones with the same number and parameters at the own address; printing and parsing what was built yields equal values.
A copy of a message or header prints the same as the original, and changing either never changes the other.
Content-Length always equals the body's size in octets.''',
     ['inputs'],
     'all messages from the enumerated grammar: every supported header in long and compact form with every combination of its optional parts up to the bound, repeated and comma-joined headers, quoting, IPv6, bodies of each type',
     'Existing tests round-trip a handful of fixed messages.',
     ['sippy/SipMsg.py', 'sippy/SipHeader.py', 'sippy/SipURL.py', 'sippy/SipAddress.py', 'sippy/SipVia.py', 'sippy/SipRequest.py', 'sippy/SipResponse.py', 'sippy/MsgBody.py', 'sippy/MultipartMixBody.py'],
     [('parse, __str__, getCopy', 'sippy/SipMsg.py and header classes')],
     None, ['printed messages', 'an independent reader'])

prop('C24', 'Malformed network input never disturbs anything else', '''
Whatever bytes arrive, they are dropped, answered with an error or, where a message can still be read, treated like any other message. What cannot be read draws at most one error answer (never an answer to an ACK or a response), leaves no state behind, and calls and transactions in progress, the one it claims to belong to included, go on exactly as if it had never arrived.
A request whose body is shorter than announced is answered 400. Anything else that is out of order concerns the call it belongs to only: no exception escapes, other calls are not affected, a refused request does not harm its own call, an accepted BYE ends it, and no transaction, dialog, call or timer is left behind.
Odd answers to keepalives do not stop further keepalives.''',
     ['inputs', 'histories'],
     'every truncation, every line removed, doubled, folded or broken, bad octets in every line, bad values in every header, bad headers added and bad bodies, of every kind of message of both sides, thrown at the real B2BUA in the middle of two calls in every phase',
     'Existing tests feed a few malformed strings to individual parsers.',
     ['sippy/SipTransactionManager.py', 'sippy/SipMsg.py', 'sippy/ESipParseException.py', 'sippy/UA.py', 'sippy/b2bua.py'],
     [('handleIncoming error handling', 'sippy/SipTransactionManager.py')],
     None, ['datagrams', 'transaction tables', 'call outcome'])

prop('C25', 'Session descriptions survive parsing, editing and printing', '''
Parsing a valid session description and printing it keeps every line, its order within each section and every value; equality after a copy, editing one stream's address, port, formats or attributes changes just that, and a copy is independent of its original.
Descriptions with session-level defaults mean the same after per-stream editing.''',
     ['inputs'],
     'all descriptions from the enumerated grammar of session and media lines (optional, repeated and absent lines, 0-3 streams, IPv4/IPv6, port ranges, unknown attributes, CRLF/LF)',
     'Existing tests check a few descriptions.',
     ['sippy/SdpBody.py', 'sippy/SdpMediaDescription.py', 'sippy/SdpMedia.py', 'sippy/SdpConnecton.py', 'sippy/SdpOrigin.py', 'sippy/SdpGeneric.py', 'sippy/MsgBody.py'],
     [('SdpBody parse/__str__', 'sippy/SdpBody.py')],
     None, ['printed descriptions'])

prop('C26', 'Route strings mean exactly what they say, in every combination', '''
Every well-formed route string yields the destination, user, host and port, credentials, hunt-stop codes, time limits, caller name, extra headers, and flags it states, with documented defaults for what it leaves out and with per-call customisation never leaking into the configured route or another call.
A malformed one is rejected with an error, not half-applied.''',
     ['inputs', 'configurations'],
     'all combinations up to the bound of destination forms and parameters with present/absent/boundary values, in every order, followed by per-call customisation',
     'There is no test of route parsing.',
     ['sippy/B2B/Route.py'],
     [('B2BRoute.parse, customize, getCopy', 'sippy/B2B/Route.py')],
     None, ['parsed route attributes', 'INVITE produced'])

prop('C28', 'Relay control channel: each command answered exactly once to the right asker', '''
Every command sent to the media relay over UDP calls its callback exactly once - with the reply that carries the command's own cookie, however replies are reordered, duplicated or delayed, or with an empty result after the retry limit -, is repeated with the same cookie until then at increasing intervals, and is never repeated after its answer.
Unknown, late and malformed replies are ignored and nothing is kept for finished commands.''',
     ['schedules', 'fault_sequences', 'histories'],
     'all interleavings up to the bound of 1-3 outstanding commands with reply/dup/reorder/loss/malformed/timer/reconnect',
     'There is no test of the control channel.',
     ['sippy/Rtp_proxy/Client/udp.py', 'sippy/Rtp_proxy/client.py'],
     [('send_command, retransmit, process_reply', 'sippy/Rtp_proxy/Client/udp.py')],
     None, ['datagrams', 'callbacks'])

prop('C29', 'Relay health: offline after failed heartbeats, online again, load kept true', '''
A relay is taken out of use after its heartbeats go unanswered, is probed from then on and taken into use again once it answers with a supported protocol version, and its advertised capabilities and load always reflect its latest answer.
While it is off no session is placed on it, and shutting the client down stops all probing.''',
     ['histories', 'fault_sequences', 'schedules'],
     'all sequences up to the bound of heartbeat answers/timeouts/garbage/version replies/shutdown',
     'There is no test of the health logic.',
     ['sippy/Rtp_proxy/client.py'],
     [('go_online/go_offline/heartbeat/version_check', 'sippy/Rtp_proxy/client.py')],
     None, ['online flag', 'commands sent', 'timers'])

prop('C31', 'Relay control messages mean the same after printing and parsing back', '''
Every relay command and update option set that can be built prints to a command that parses back to the same command, session, tags, addresses, options and payload, unknown options included.
Relay answers of every documented form are read as the port, address and family they state, and error answers as errors.''',
     ['inputs'],
     'all commands and all option combinations up to the bound, IPv4/IPv6, codec lists, all answer forms',
     'There is no test of the command language.',
     ['sippy/Rtp_proxy/cmd.py', 'sippy/Rtp_proxy/Session/update.py'],
     [('Rtp_proxy_cmd, UpdateOpts', 'sippy/Rtp_proxy/cmd.py')],
     None, ['printed commands'])

prop('C32', 'External commands: one verdict per request, none after cancel, no lost worker', '''
Each request given to the pool of external helper processes yields exactly one callback with exactly that request's output lines, on the main loop, unless cancelled before that, in which case there is none; requests are taken in order, and one helper serves one request at a time.
A helper that dies or fails costs at most its own request, which is still answered, and shutdown ends every helper.''',
     ['schedules', 'fault_sequences'],
     'all thread interleavings up to the preemption bound of producers, cancel, workers and shutdown, with helper death at every read/write',
     'There is no test of it; the guarantees are over thread schedules.',
     ['sippy/External_command.py'],
     [('_Worker.run, Work_item', 'sippy/External_command.py')],
     None, ['callbacks', 'helper input/output'])

prop('C33', 'Logging loses nothing, keeps order and never blocks or kills the server', '''
Every record written before shutdown appears in the log exactly once, in the order its writer wrote it and never mixed with another record, over rotation and re-opening of the file
(only when more than a thousand records are waiting for a file that does not take them may the oldest be dropped); a log file that cannot be written never stops or disturbs the caller.
Shutdown writes out what is queued and ends the writer.''',
     ['schedules', 'fault_sequences', 'histories'],
     'all thread interleavings up to the preemption bound of two writers, reopen, shutdown and the log thread, with open/write/flush failures at each call',
     'There is no test of the logger.',
     ['sippy/SipLogger.py'],
     [('AsyncLogger.run, SipLogger.write, do_write', 'sippy/SipLogger.py')],
     None, ['log file content'])

prop('C35', 'Timers and deferred calls run when due, in order, exactly as often as asked', '''
A timer never fires early, a one-shot fires once, a periodic one as many times as asked, timers due together fire in deadline order, and a cancelled timer never fires again, even when cancelled by another timer due at the same instant or by its own callback; a failing callback stops nothing else.
Calls handed over from other threads and signals run exactly once, on the loop, in the order given, and a break request ends the loop at once.''',
     ['schedules', 'histories'],
     'all programs up to the bound of timers (intervals, absolute, periodic counts, cancel from outside/self/peer, registering from callbacks, exceptions) and thread-posted calls',
     'Existing tests use a couple of timers in one order.',
     ['sippy/Core/EventDispatcher.py', 'sippy/Time/Timeout.py'],
     [('dispatchTimers, regTimer, callFromThread, loop', 'sippy/Core/EventDispatcher.py')],
     None, ['callback order and times'])

prop('C37', 'Configuration means the same from file, command line and saved state', '''
Every option takes the value given last on the command line, a configuration file counting at the place where it is named there (the repeatable -r and -h add to what was given before), else its default; each is validated and read back with its declared type, an unknown option or invalid value is refused with an error, and what is written out reads back to the same values.''',
     ['inputs', 'configurations'],
     'every declared option with valid, invalid and boundary values from each source and pair of sources, and save/load of each',
     'There is no test of the configuration.',
     ['sippy/MyConfigParser.py', 'sippy/b2bua.py'],
     [('MyConfigParser', 'sippy/MyConfigParser.py')],
     None, ['values read back'])

prop('C38', 'NAT traversal: unreachable peers are answered and called where they write from', '''
With nat_traversal on, a request's Contact whose host is private (RFC 1918), 255.255.255.255 or has port 0, coming straight from the peer (one Via), is taken to be the address and port the datagram came from, and so is a private Contact in an answer to a request sent to a public address; an answer to a request whose Via host is private or ends in .invalid goes to the port it came from. So whole calls of such peers work: each later request and answer reaches them.
Nothing else is changed, addresses outside these ranges are taken as written, requests that came through a proxy are left alone, and with the option off nothing is replaced at all (rport and received apply as ever).''',
     ['inputs', 'configurations', 'histories'],
     'option on/off x hosts at and around every range boundary x ports x Vias x contact forms x methods; answers alike; all call histories up to the bound with either or both parties behind NAT',
     'No test turns the option on.',
     ['sippy/SipTransactionManager.py', 'sippy/b2bua.py'],
     [('handleIncoming, check1918, check7118', 'sippy/SipTransactionManager.py'), ('main: nat_traversal', 'sippy/b2bua.py')],
     None, ['destinations and contacts of messages'])

prop('C39', 'Operator connections: every command answered in full, no client harms another', '''
On the operator's command socket each complete line a client writes (however cut into packets, LF or CRLF, blank lines aside) is executed exactly once, on the main loop, in order; its answer reaches that client whole and in order, also when the connection is closed on request, by a failing command, or the client has ended its own side after the last command.
Whatever a client does (ends, resets or vanishes at any point, writes what is not text, never reads) and whatever accepting a connection fails with, other connections are served, new ones accepted, and its own connection and threads are released once it is over. Callers outside the accept list are not served; after shutdown no socket is left.''',
     ['schedules', 'crash points', 'inputs'],
     'every schedule of acceptor, readers, writers and main loop within the preemption bound x ways a client may end x partial sends x accept failures; all cuts of the written bytes into packets',
     'No test opens an operator connection.',
     ['sippy/CLIManager.py', 'sippy/B2B/SimpleAPI.py'],
     [('CLIConnectionManager, _Acceptor', 'sippy/CLIManager.py'), ('_CLIManager_r, _CLIManager_w, CLIManager', 'sippy/CLIManager.py')],
     None, ['commands executed and octets received'])

prop('C40', 'Prompts, recordings, copies, statistics: right stream and side, one report each', '''
On a relay session, playing and stopping a prompt, recording, copying media and asking for statistics each send the relay exactly their commands, in the order asked, for the stream index given and with the tags of the side named (that side first; prompts with its codecs); a stream side the relay does not know yet is set up first where needed, with the notify socket and tag if any.
Each request with a callback reports exactly once: the relay's last answer, or None if the stream is unknown, setting up fails or the relay does not answer; never from within the call. Statistics are five numbers or None. Deleting the session at any point deletes every stream ever set up (except one the relay has reported as timed out) exactly once, and late answers do no harm.''',
     ['histories', 'schedules', 'inputs'],
     'every sequence of 1-3 requests on sessions with either, both or no sides set up x relay answers (right, error, none, unreadable) at every moment x deletion at every moment',
     'No test plays, records or copies anything.',
     ['sippy/Rtp_proxy/session.py', 'sippy/Rtp_proxy/Session/side.py', 'sippy/Rtp_proxy/Session/update.py'],
     [('Rtp_proxy_session', 'sippy/Rtp_proxy/session.py'), ('_rtpps_side', 'sippy/Rtp_proxy/Session/side.py'), ('Rtp_proxy_cmd_sequencer', 'sippy/Rtp_proxy/Cmd/sequencer.py')],
     None, ['commands sent and results reported'])

prop('C41', 'SIP over WebSocket: each message reaches its own connection, calls work as ever', '''
Every message a WebSocket client sends is handed over once, in order, as coming from that connection; every message sent to a connection goes out on it only, whole and in order, while slow, ended, vanished or unknown connections hold up, lose or disturb nobody else, and leave nothing behind when over. Shutting down ends the server; failure to listen is reported.
A client is known by its connection, whatever unreachable address its Via and Contact show: answers, even to malformed, refused or repeated requests and those a proxy answers, and all later requests of its calls go to its connection, and calls from or to such clients behave as any other. Redirects it gives keep pointing where they did.''',
     ['histories', 'schedules', 'inputs'],
     'every sequence of connecting, messages both ways, slow sending, closing, shutdown, also within one turn of the loop; call histories and crossings with either party behind a WebSocket; single requests of 7 methods',
     'No test uses the WebSocket server.',
     ['sippy/Wss_server.py', 'sippy/SipTransactionManager.py', 'sippy/b2bua.py', 'sippy/StatefulProxy.py'],
     [('Wss_server', 'sippy/Wss_server.py'), ('handleIncoming, newTransaction', 'sippy/SipTransactionManager.py'), ('placeOriginate, recvRequest', 'sippy/b2bua.py')],
     None, ['messages delivered to and from connections'])

prop('C42', 'Relay control over stream sockets: one right answer each, losses healed', '''
Every command sent to a relay over a unix or TCP socket, or to the built-in relay, is written as one whole line, and calls its callback exactly once, on the main loop, with the relay's answer to that very command, however many workers serve the relay and callers use it; in order with one worker. A connection the relay closes or that breaks is made anew and the command repeated on it, for a limited number of times; only a command that then cannot be delivered, or whose answer is no text, is answered with nothing, and those after it are served as ever.
Shutting the client down answers what was sent before and ends its workers. Each form of a relay's address means the transport, family, host, port or path it states, with the documented default port.''',
     ['schedules', 'fault_sequences', 'inputs'],
     'all schedules up to the preemption bound of 1-2 callers, 1-2 workers and the main loop, with up to 2-3 failures of connecting, writing or reading at every step; all address forms',
     'The only test sends one command to a relay that is not there.',
     ['sippy/Rtp_proxy/Client/stream.py', 'sippy/Rtp_proxy/Client/Worker/external.py', 'sippy/Rtp_proxy/Client/Worker/internal.py', 'sippy/Rtp_proxy/Client/internal.py', 'sippy/Rtp_proxy/client.py'],
     [('send_command, shutdown', 'sippy/Rtp_proxy/Client/stream.py'), ('run, send_raw', 'sippy/Rtp_proxy/Client/Worker/external.py'), ('__init_udp .. __init_internal', 'sippy/Rtp_proxy/client.py')],
     None, ['lines written to the relay', 'callbacks', 'addresses connected to'])

prop('C43', 'Hosts with several addresses: each message leaves by and names the facing one', '''
When no address is configured, a request is sent from the local address that faces its destination (on the configured port), and its Via, Contact and From show that very address; so do answers to a request received, which go back to where it came from. Repeats, CANCEL and ACK leave by the same socket as the request they belong to. A transaction given a local address uses that one. When the network changes, what was remembered of a destination is forgotten once it has been out of use for a bounded time.
With a configured address only that one is used. Each address is listened on by exactly one socket, opened when needed and never twice; a host without IPv6 serves IPv4 as ever; shutting down closes them all. Starting fails if the port is in use by somebody else, even one willing to share it.''',
     ['histories', 'configurations'],
     'every sequence of requests out and in, answers, cancelling, repeats, passing time and changes of the network, over 2-4 destinations facing different addresses of both families, with and without IPv6 or a configured address',
     'All tests use one fixed local address.',
     ['sippy/SipTransactionManager.py', 'sippy/SipConf.py', 'sippy/Udp_server.py'],
     [('local4remote', 'sippy/SipTransactionManager.py'), ('newTransaction, incomingRequest, transmitMsg', 'sippy/SipTransactionManager.py')],
     None, ['datagrams per socket', 'addresses shown', 'sockets open'])

prop('C44', 'UDP transport: every datagram once, to and from the right address, until the end', '''
Every datagram given to a UDP server to send is sent exactly once, whole, to the address (or name, looked up) given, in order with one worker, before the server ends; one that cannot be delivered, or whose destination does not resolve, is dropped alone, and a full socket is tried again for a limited number of times. Every datagram that arrives is handed over exactly once with the address it came from (IPv6 in brackets), on the main loop unless asked otherwise.
No error of the socket, empty datagram or exception of the owner ends sending or receiving. Shutting down ends all threads and closes the socket, and nothing is handed over afterwards.''',
     ['schedules', 'fault_sequences'],
     'all schedules up to the preemption bound of callers, 1-3 sending and receiving workers and the main loop, with failures of sending, receiving and lookup at every step, both address families',
     'The only test sends a few datagrams to itself.',
     ['sippy/Udp_server.py', 'sippy/Network_server.py'],
     [('AsyncSender, AsyncReceiver, Udp_server', 'sippy/Udp_server.py'), ('send_to, handle_read, shutdown', 'sippy/Network_server.py')],
     None, ['datagrams given to the socket', 'datagrams handed over'])

if __name__ == '__main__':
    p = os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), 'properties.jsonl')
    with open(p, 'w') as f:
        for d in P:
            f.write(json.dumps(d) + '\n')
    print(len(P))
