chk('C04', LOCK, '8 recorded routes x 4 contact forms x outbound proxy x role, then all sequences of in-dialog requests of length 2-4 (long dialogs 4-5); crossing answers, forked early dialogs, delayed ACK')
chk('C05', LOCK, 'all sequences of 3-5 peer messages, owner events and delays over 23 configurations of a calling or answering agent (late offer, no ACK, SDP handlers, reasons, REFER)')
chk('C06', LOCK, 'all sequences of 3-6 endings, crossings and delays, peer deaf or not, plus keepalive histories; timers, transactions and dialog table compared with empty at the end')
chk('C07', LOCK, 'grid of no-reply x no-progress x setup x credit limits, both roles, all sequences of 2-5 answers, owner events and delays around every deadline')
chk('C08', LOCK, '13 challenge forms x 401/407, credentials/algorithm filters/pass-through, at every point of sequences of 2-5 steps; digests recomputed independently')
chk('C09', LOCK, 'all sequences of 3-6 session changes, answers, hang-ups and delays inside an established call, 17 configurations, SDP handlers included')
chk('C10', LOCK, 'whole B2BUA: all sequences of 4-6 signals of either party against a two-leg reference, plain and late offers; crossings with held messages, deaf parties, operator, keepalive')
chk('C11', LOCK, '11 route sets with time limits, groups, hunt-stop, forward-on-fail, credit; all sequences of 4-5 outcomes, delays and hang-ups against a reference of the hunt')
chk('C13', ENUM, 'grid of admission settings x callers x 16 verdicts, all sequences of 3-4 calls, verdicts, cancels, delays')
chk('C12', LOCK, '8 route sets x 4 accounting settings; all sequences of 3-5 answers (38 failure codes), hang-ups, delays, operator and credit endings; each record compared with a ledger kept outside')
chk('C15', ENUM, '8 route forms x 5 x 5 number translations x 19 incoming calls; 5 pass-header lists x hidden Call-ID x all sequences of 2-3 of 8 calls; whole outgoing INVITE compared with an independent construction')

chk('C16', LOCK, 'all populations of 0-3 calls in 5 states (same Call-ID and non-ASCII included) x all sequences of 1-3 of 25 commands and signals; shutdown and restart signals at 3 moments of each population')

chk('C18', ENUM, 'all subsets of 7 allowed formats x 28 offers; answers, late offers and ACKs, and 1-2 session changes from either side with all pairs of descriptions; compared with an independent filter on the text')

chk('C17', LOCK, 'relay answering at once: 150+ descriptions x 7 answers, provisional/early/late/malformed, 1-3 session changes; relay answering late or failing: all interleavings of 4-7 relay answers and signals of both parties (INFO, hang-ups, hunting, routes bypassing the relay); outages of 1-3 relays; media timeouts')

chk('C28', LOCK, 'one and two relays, all sequences of 3-6 commands, relay answers (right, late, repeated, foreign, from elsewhere, malformed), losses and delays on the control channel against a reference of cookies, repeats and give-up')

chk('C29', LOCK, 'all sequences of 4-7 heartbeat and version answers (good, garbage, error, none), delays, shutdown; placement of sessions asked at every state')

chk('C31', ENUM, 'every command kind x option combinations up to the bound x address families x tags x payloads, printed and parsed back; every documented answer form in both protocol families')

chk('C32', THR, 'real worker, producer and loop threads: every interleaving up to 2-3 scheduling deviations x helper output forms, helper death at every read or write, cancel, shutdown, failing start of a helper')

chk('C33', THR, 'real writer, log and signal threads: every interleaving up to 2-3 scheduling deviations of writers, rotation, reopen, shutdown; open, lock, write and flush failing at each call')

chk('C35', LOCK, 'all programs of 2-3 timers (13 forms x 14 actions of a callback), cancels and registrations between turns, 2 tick lengths; all sequences of 2-4 turns with signals, calls from threads, break requests; monitor of deadlines, counts, order')

chk('C19', LOCK, 'all combinations of 4 Via hosts, rport, 1-3 Vias in one or several headers, 6 Max-Forwards, 6 Supported and 4 Path forms, bodies (10560 requests), each repeated, answered and answered late; histories of 1-3 simultaneous requests with repeats, CANCEL, responses, stray responses and passing time to depth 4-5 (thorough 6); odd requests; 8 methods through the B2BUA with and without proxy')
chk('C20', ENUM, 'all sequences of 2 (thorough 3) of 49 answers and stops (15 forms of 2xx, 14 challenges, failures, no answer, late and provisional answers), with repeated answers, without credentials or callbacks, with another target; 8 of them to depth 4 (6), challenges in a row to depth 5 (8)')
chk('C21', ENUM, 'every 1-character replacement/insertion/cut/swap, bit flips, block mixtures, all 63x63 algorithm sets x 17 ages, keys differing in any byte, all histories of 4-5 issues')

chk('C22', ENUM, '7 algorithms x 9 protection offers x methods x bodies x names; every field replaced or removed, alone and with another one removed; independent digest computation')

chk('C26', ENUM, '10 destination forms x 6 numbers x all pairs (thorough: triples, quadruples) of 15 parameters in all values and orders; 2-3 calls customised over each configured route; 22 malformed destinations and 38 malformed parameters at every position')

chk('C37', ENUM, '35 options with valid, boundary and invalid values from 7 sources, every pair of sources and of options, flags in all orders up to 2-3 over a file, repeated -r/-h, state written and read back; the real start-up code with everything it starts replaced by recorders')

chk('C24', ENUM, '36 messages of caller, callee and strangers in 5 phases of a call, each cut at every octet, with bad octets in 3 places of every line, every line removed, doubled, unfolded and folded, start line words, 21 bad values for every header and for 28 added headers, broken bodies; what cannot be read thrown at one B2BUA at once with the rest of both calls compared octet by octet, the rest in batches of 40 (thorough: one by one); answers to keepalives with the same mutations')
chk('C25', ENUM, 'all combinations of absent, present and repeated session lines (11664), of media lines and addresses of 1-3 streams, every line with every value and line end; all sequences of 2 (thorough 3) edits of original and copy over 5 descriptions, in lock-step with a text model')

chk('C23', ENUM, '38 headers in long and compact form with every enumerated form of value, white space, quoting, parameters and addresses; start and status lines; headers in all orders; bodies of each type; every edit of one header of original or copy, all sequences of 2 (thorough 3) edits of copies of whole messages; messages built and answered; an independent reader judges')

chk('C38', LOCK, 'option on/off x 26 hosts at the boundaries of the private ranges x 3 ports x 6 Via hosts x ports x rport x 1-2 Vias x sources x methods (67104 requests, each repeated), 8736 answers, and all histories of 3-4 (thorough 5) steps of whole calls whose caller, callee or both are behind NAT, in lock-step with the reference of C10')
chk('C39', THR, 'real acceptor, reader, writer and loop threads over stand-in sockets (checked against real ones): every interleaving up to 1-2 (thorough 3) scheduling deviations of 6 command patterns x 5 ways a client ends, partial sends, a client that never reads, 11 pairs of clients, up to 2 of 8 failures of accept, shutdown; all cuts of 6 command streams into packets')
chk('C40', LOCK, 'all sequences of 1-3 of 9-25 requests (play, stop, copy, record, statistics, version; sides, streams, with and without callback) over 5 states of the session, each command answered right, with an error, not at all or unreadably at every moment, session deleted at every moment; commands and reports in lock-step with a reference')
chk('C41', LOCK, 'real WebSocket server on a controlled asyncio loop: all sequences of 4-7 of connect, message in, message out, slow send done, close, reset, shutdown on 2 connections, at rest or within a turn; 432 single requests; all histories of 5 (thorough 6) steps of whole calls with caller or callee on a WebSocket in lock-step with the reference of C10')
chk('C42', THR, 'real client, workers and main loop over stand-in sockets (checked against real unix and TCP ones): every interleaving up to 1 (thorough 2) scheduling deviations of 1-2 callers and 1-2 workers on unix, TCP and built-in relay, connections kept or closed after each answer, up to 2-3 of 12 failures of connect, write and read at every step, with shutdown; 63 combinations of address form and workers')
chk('C43', LOCK, 'all sequences of 4-5 requests out, requests in, answers (180, 200, 486), cancelling, local addresses asked for, repeats, timeouts and changes of the network over 2-4 destinations behind 4 local addresses of both families, with a configured address, without IPv6; cycles of 2-4 actions to depth 16-40')
chk('C44', THR, 'real sending and receiving threads over a stand-in socket (compared with real ones): every interleaving up to 1-2 (thorough 2-3) scheduling deviations of 1-2 callers, 1-3 workers each way and the main loop, sends, lookups that fail, datagrams in, shutdown; up to 2-3 (5) of 8 failures of sending and receiving at every step; both address families')
