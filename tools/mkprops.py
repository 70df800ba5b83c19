#!/usr/bin/env python3
"""Writes /verif/properties.jsonl (the single source of the property texts)."""
import json, os
P = []
def p(id, title, statement, over, qtext, why, files, mech, state=None, observe=None):
    assert len(title) <= 80, (id, len(title))
    d = dict(id=id, title=title, statement=statement,
             quantifier=dict(over=over, text=qtext), why_tests_cant=why,
             anchors=dict(files=files, mechanism=[dict(name=n, where=w) for n, w in mech]))
    if state: d["anchors"]["state"] = [dict(name=n, meaning=m, where=w) for n, m, w in state]
    if observe: d["anchors"]["observe_at"] = observe
    d["anchors"]["hook_needed"] = None
    P.append(d)

p("C01", "No received media or control packet can crash the process or corrupt memory",
  "Whatever bytes a remote peer puts in an RTP packet, an RTCP packet, an RTP header extension or a video/audio payload, parsing it never reads or writes outside the received buffer, never dereferences a null buffer and never terminates the process: a malformed packet is rejected or ignored. This covers header and extension parsing, padding, RTX unwrapping, NACK / transport-wide feedback / report handling and the reassembly of every supported codec.",
  ["inputs"], "every byte string of every length arriving as media, control or payload, in every packet position",
  "The tests parse a handful of well formed packets; the guarantee is over all byte strings, and one missing length test in one branch is a remote crash.",
  ["src/rtp_packet.cpp","src/rtcp_packet.cpp","src/rtp_extension.cpp","src/depacketizer_*.cpp","src/codec_*.cpp","src/bit_reader.cpp","src/byte_buffer.cpp","src/twcc_subscribe.cpp","src/twcc_common.cpp","src/peer_candidate.cpp","src/peer_connection.cpp"],
  [("reader that aborts on a read past the end, so each read must be preceded by a remaining-bytes test","src/byte_buffer.cpp ByteReader::check_read"),
   ("length tests in the packet parsers","src/rtp_packet.cpp RtpPacket::fromUdpPacket, src/rtcp_packet.cpp RtcpPacket::fromUdpPacket"),
   ("length tests in the payload depacketizers","src/depacketizer_*.cpp extract/isFrameStart")])
p("C02", "No SCTP packet or data channel message can crash the process or corrupt memory",
  "Whatever bytes a remote peer sends inside the DTLS association, in any association state, processing them never reads or writes outside the received bytes and never terminates the process: a malformed packet, chunk, parameter or channel control message is dropped or the association is aborted.",
  ["inputs","histories"], "every SCTP packet of every length and chunk layout, after every history of earlier packets",
  "The unit tests cover only the checksum and the reassembly buffer; no chunk parser is exercised with a truncated or inconsistent chunk.",
  ["src/sctp/*.cpp","src/byte_buffer.cpp"],
  [("chunk length validation while parsing a packet","src/sctp/sctp_packet.cpp"),("per chunk handlers, each testing the remaining bytes before reading","src/sctp/sctp_session.cpp")])
p("C03", "No STUN or demultiplexed datagram can crash the process or corrupt memory",
  "Whatever bytes arrive on the UDP socket, classifying the datagram and decoding it as a STUN message never reads or writes outside the received datagram and never terminates the process; building a STUN message likewise never writes outside its fixed buffer.",
  ["inputs"], "every datagram, authenticated or not, of every length",
  "There is no STUN test at all; truncated attributes and inconsistent length fields are never fed to the parser.",
  ["src/stun/*.cpp","src/ice_agent.cpp","src/peer_candidate.cpp","src/socket_*.cpp"],
  [("message length validation before any attribute access","src/stun/stunmessage.cpp stun_message_validate_buffer_length"),("datagram classification by size and first byte","src/peer_candidate.cpp")])
p("C04", "No encoded frame given by the application can crash packetization",
  "Whatever bytes and length an application passes as an encoded audio or video frame, including empty and truncated ones, inspecting and packetizing it never accesses memory outside the frame and never terminates the process.",
  ["inputs"], "every frame of every size and content, every codec, every negotiated packet size",
  "The packetizer test samples a few frame shapes for one codec; byte-exact boundary cases in NAL/OBU walking are data dependent.",
  ["src/packetizer*.cpp","src/codec_*.cpp","src/bit_reader.cpp","src/h26x*.cpp"],
  [("NAL / OBU walkers with explicit end pointers","src/codec_h264.cpp, src/codec_h265.cpp, src/codec_av1.cpp"),("fragmentation loops","src/packetizer_*.cpp")])
p("C05", "Media and control packets are acted on only after authentication succeeds",
  "A received SRTP or SRTCP packet that fails its integrity check has no effect: it is not delivered, not counted as received media, and does not change the rollover/sequence/replay state used to process later packets. Every cipher suite computes the check over the whole authenticated portion and treats a failed check as rejection.",
  ["inputs","histories"], "every received packet, every cipher suite, every earlier history of the stream",
  "The crypto tests check round trips of valid packets; they do not check that a forged packet leaves all state untouched on every path.",
  ["src/srtp_connection.cpp","src/srtp_crypto.cpp","src/peer_candidate.cpp"],
  [("receive path: replay test, authenticate, then commit","src/srtp_connection.cpp unprotectReceiveMedia/unprotectReceiveControl"),("tag verification","src/srtp_crypto.cpp"),("delivery after successful unprotect","src/peer_candidate.cpp")],
  observe=["listener callbacks for received media and control packets"])
p("C06", "A replayed SRTP or SRTCP packet is never processed twice",
  "Each received media or control packet is tested against a per-stream replay window before it is decrypted, a packet already recorded or older than the window is dropped, and an accepted packet is recorded, exactly when it authenticated.",
  ["histories","inputs"], "every sequence of received packets, for every stream, both cipher families",
  "The replay window has unit tests in isolation, but nothing tests that both receive paths consult it first and record only authenticated packets.",
  ["src/srtp_connection.cpp","src/replay_protection.cpp"],
  [("canProceed before, set after","src/srtp_connection.cpp"),("window bookkeeping","src/replay_protection.cpp")])
p("C07", "No media keys or data are accepted before the peer certificate is verified",
  "SRTP keys are derived, and the connection reported usable, only after the DTLS handshake completed, the peer presented a certificate, and that certificate's fingerprint equals the one in the signalled SDP. On a missing certificate, a mismatch or a handshake failure the candidate fails and no media or data channel traffic flows.",
  ["inputs","histories"], "every handshake outcome, every certificate, every ordering of handshake and packets",
  "No test runs a DTLS handshake; the guarantee is that no path reaches the established state around the comparison.",
  ["src/peer_candidate.cpp","src/x509_hash.cpp","src/srtp_connection.cpp"],
  [("fingerprint comparison between handshake completion and key export","src/peer_candidate.cpp"),("established state","src/peer_candidate.cpp mDtlsState")])
p("C08", "Only authenticated STUN messages influence connectivity",
  "A STUN binding request is answered, and a STUN message changes connection progress, only when its message integrity is verified with the session's credentials; a response additionally has to match an outstanding transaction, and each transaction can be consumed at most once.",
  ["inputs","histories"], "every STUN datagram and every history of requests sent",
  "There is no test of the ICE agent; an attacker's datagrams are not represented.",
  ["src/ice_agent.cpp","src/peer_candidate.cpp"],
  [("request/response verification","src/ice_agent.cpp verifyRequestMessage, verifyResponseMessage, forgetTransaction"),("dispatch","src/peer_candidate.cpp onReceivedStunMessage")])
p("C09", "Only checksum-valid SCTP packets of this association are processed",
  "No chunk of a received SCTP packet is acted on unless the packet's checksum matched and its verification tag is the one of this association (zero only for a packet opening it); a cookie is accepted only if its keyed hash verifies, and channel messages are sent only in an established association.",
  ["inputs","histories"], "every received packet in every association state",
  "Tests cover the checksum function only, never the gate in front of the chunk handlers.",
  ["src/sctp/sctp_packet.cpp","src/sctp/sctp_session.cpp"],
  [("checksum comparison at parse","src/sctp/sctp_packet.cpp"),("tag test and cookie check","src/sctp/sctp_session.cpp")])
p("C10", "Media, feedback and data never leave the host unencrypted",
  "Every datagram handed to the network is a STUN message, the output of the DTLS engine, or the output of a successful SRTP/SRTCP protection; when protection fails nothing is sent.",
  ["inputs","programs"], "every call path that reaches the socket",
  "Tests never look at the socket; a single new or altered call path that sends the plain packet passes them all.",
  ["src/peer_candidate.cpp","src/send_pacer.cpp","src/rtcp_*.cpp","src/socket_*.cpp"],
  [("protect before send","src/send_pacer.cpp sendImpl, src/peer_candidate.cpp sendRtcpPacket"),("DTLS BIO output","src/peer_candidate.cpp")])
p("C11", "Secrets and authentication tags are compared in constant time and in full",
  "Every comparison that decides whether a received tag, message integrity value, cookie hash or certificate fingerprint is authentic examines the full length of the value, and for keyed values it does so with a constant-time primitive.",
  ["inputs"], "every comparison site",
  "Timing and partial comparison are invisible to functional tests with matching values.",
  ["src/srtp_crypto.cpp","src/ice_agent.cpp","src/sctp/sctp_session.cpp","src/peer_candidate.cpp"],
  [("constant-time comparison helper","src/srtp_crypto.cpp SrtpCrypto::secureEquals"),("cookie comparison","src/sctp/sctp_session.cpp")])
p("C12", "A failing cryptographic operation is never treated as success",
  "Whenever a cryptographic library operation that can fail (key derivation and export, cipher and MAC set-up and processing, random generation, certificate and handshake set-up) reports failure, the enclosing operation fails: no packet is emitted or accepted and no key is used on the basis of its output.",
  ["fault_sequences"], "every failure return of every cryptographic library call",
  "Library failures cannot be provoked by the existing tests; error branches are never executed.",
  ["src/srtp_crypto.cpp","src/srtp_connection.cpp","src/srtp_openssl.cpp","src/random_generator.cpp","src/x509_*.cpp","src/peer_candidate.cpp","src/hmac*.cpp"],
  [("return values of the OpenSSL calls","src/srtp_crypto.cpp and the other files that include openssl headers")])
p("C13", "SRTP keys are separated by direction, purpose and role",
  "The keys derived for sending are the ones the peer derives for receiving and never the same key for both directions; encryption key, authentication key and salt, for media and for control, are derived with their own distinct labels and never interchanged.",
  ["configurations"], "both DTLS roles, every cipher suite, media and control",
  "The key derivation tests check the derivation function with given inputs, not which derived key is installed in which direction.",
  ["src/srtp_connection.cpp","src/srtp_crypto.cpp","src/srtp_util.cpp"],
  [("split of exported key material by role","src/srtp_connection.cpp create"),("labels","src/srtp_crypto.cpp create")])
p("C14", "No two protected packets share a key stream position",
  "Every outgoing media packet of a stream is built with a freshly drawn packet index whose rollover part advances when the sequence number wraps, a retransmission gets its own fresh index, and every outgoing control packet uses a fresh strictly increasing control index, so no two different packets under one key use the same initialisation vector.",
  ["histories"], "every history of frames, retransmissions and reports",
  "Wrap-around occurs after 65536 packets and control index reuse needs a history; packetizer tests look at one frame.",
  ["src/rtp_packet_source.cpp","src/rtcp_packet_source.cpp","src/packetizer_*.cpp","src/srtp_connection.cpp","src/srtp_crypto.cpp","src/peer_candidate.cpp"],
  [("sequence source with rollover","src/rtp_packet_source.cpp getNextSequence"),("control index source","src/rtcp_packet_source.cpp getNextSequence"),("IV construction","src/srtp_crypto.cpp")])
p("C15", "State shared between application threads and worker threads is never raced on",
  "Every member of the connection object and of the task schedulers that both an application thread (through any public call) and a library worker thread can touch is accessed only with the same mutex held, or is atomic or unchanged after the worker thread was started, and no worker thread is started before the members it uses are initialised.",
  ["schedules"], "every interleaving of public calls with worker threads, timers and network events",
  "The tests are single threaded; races need particular interleavings.",
  ["src/peer_connection.cpp","include/srtc/peer_connection.h","src/scheduler.cpp","src/jitter_buffer.cpp","src/track*.cpp","src/event_loop_linux.cpp"],
  [("mutexes and guarded-by annotations","include/srtc/peer_connection.h, include/srtc/scheduler.h")])
p("C16", "No deadlock, and no application callback under the state lock",
  "Locks are always acquired in one global order and never re-acquired while already held, a worker thread is never joined or waited for with a lock it needs, and application callbacks are never invoked while the connection's state lock is held, so a callback may call back into the public API that takes it.",
  ["schedules"], "every interleaving of threads and every public call made from a callback",
  "A deadlock needs two threads in a particular interleaving; tests run one thread.",
  ["src/peer_connection.cpp","src/scheduler.cpp","src/jitter_buffer.cpp","src/event_loop_linux.cpp"],
  [("lock scopes","src/peer_connection.cpp"),("scheduler locks","src/scheduler.cpp")])
p("C17", "No timer or asynchronous callback runs on a destroyed object",
  "Every delayed task that refers to an object is cancelled, at the latest, before any part of that object is destroyed, and a stored task handle is not overwritten while the earlier task is still pending.",
  ["schedules","histories"], "every moment at which an object may be destroyed relative to its pending timers",
  "A use after free needs a timer to fire after destruction, which no test arranges.",
  ["include/srtc/peer_candidate.h","include/srtc/scheduler.h","src/scheduler.cpp","src/sctp/sctp_session.h","include/srtc/rtp_extension_source_twcc.h"],
  [("scoped scheduler that cancels its tasks on destruction and is destroyed first","include/srtc/scheduler.h ScopedScheduler")])
p("C18", "The reported connection state is truthful and final states are final",
  "The connection is reported as connected only for a candidate whose secure handshake completed successfully; once failed or closed is reported no later state replaces it; and every accepted state change is reported to the application once.",
  ["histories","schedules"], "every history of candidate events, timeouts and close calls",
  "Tests never construct a connection that goes through its life cycle.",
  ["src/peer_connection.cpp","src/peer_candidate.cpp"],
  [("single state setter with terminal-state test","src/peer_connection.cpp setConnectionState")])
p("C19", "A remote peer cannot make the library hold unbounded state",
  "Every container that grows because of received traffic is bounded by a fixed limit, by a bounded key space, or is emptied as fast as it is filled; an unauthenticated packet can add no long-lived entry.",
  ["histories","inputs"], "every history of received packets",
  "Growth needs long histories; tests send a few packets.",
  ["src/srtp_connection.cpp","src/sctp/*.cpp","src/twcc_*.cpp","src/rtp_*_history.cpp","src/ice_agent.cpp","src/peer_candidate.cpp","src/jitter_buffer.cpp"],
  [("explicit caps before insertion","src/sctp/sctp_session.cpp, src/twcc_*.cpp, src/ice_agent.cpp")])
p("C20", "Accepted data channel messages are retransmitted until acknowledged",
  "A data channel fragment handed to the network stays retained, with the retransmission timer armed, until an acknowledgement covering it is received; acknowledging some fragments never stops the timer while others are outstanding.",
  ["histories","fault_sequences"], "every loss and acknowledgement history",
  "No test drives the association; losing a timer re-arm shows only after a loss.",
  ["src/sctp/sctp_session.cpp"],
  [("sent chunk list and retransmission timer","src/sctp/sctp_session.cpp")])
p("C21", "A duplicate data chunk is never delivered to a channel twice",
  "A received data chunk is passed on for reassembly only if its transmission number is neither at or below the cumulative acknowledgement point nor already recorded as received out of order, and it is recorded as received when passed on.",
  ["histories"], "every history of received transmission numbers, including wrap-around",
  "Needs retransmission histories that no test produces.",
  ["src/sctp/sctp_session.cpp"],
  [("duplicate test before delivery","src/sctp/sctp_session.cpp onReceiveData handling")])
p("C22", "Every negotiable codec is fully supported on every path",
  "Each codec the library can negotiate has a name, a packetizer, a depacketizer and SDP naming, the offer and the answer parser agree on the spelling, and each one maps to the implementation of that same codec.",
  ["configurations"], "every codec of the codec enumeration, in both directions",
  "Tests build a packetizer for one codec; a missing or crossed case elsewhere is not exercised.",
  ["include/srtc/codec.h","src/packetizer.cpp","src/depacketizer.cpp","src/sdp_offer.cpp","src/sdp_answer.cpp","src/util.cpp"],
  [("codec switches and tables","src/packetizer.cpp make, src/depacketizer.cpp make, src/sdp_offer.cpp, src/sdp_answer.cpp")])
p("C23", "Public calls in the wrong state or direction are rejected without effect",
  "Publishing on a connection that was not set up for publishing (or asking for a key frame on one that was not set up for subscribing), naming a track that the connection does not have, sending a data channel message when none were negotiated or after the connection failed or closed, making or parsing a description of the wrong direction, and repeating one-time set-up calls (offer, answer, start) return an error and change nothing; media given to a connection that is not currently connected is ignored and never queued.",
  ["histories"], "every order of public calls",
  "Tests do not exercise the connection object's API at all.",
  ["src/peer_connection.cpp"],
  [("guards at the head of the public calls","src/peer_connection.cpp")])
p("C24", "An SDP answer lacking the essentials of a secure session is rejected",
  "An answer is accepted only if it carries ICE credentials, a certificate fingerprint, at least one media track or data channel, at least one usable candidate, and multiplexed control packets when it describes media, and if each of its negotiated tracks has a media section identifier and a codec the library supports; otherwise parsing returns an error and never a partially filled answer.",
  ["inputs"], "every SDP answer text",
  "Tests parse no answer at all or a single good one.",
  ["src/sdp_answer.cpp"],
  [("final validation before constructing the answer","src/sdp_answer.cpp SdpAnswer::parse")])
p("C25", "Sequence and transmission numbers are compared correctly across wrap-around",
  "Ordering decisions on wrapping counters (RTP sequence numbers, transport-wide sequence numbers, SCTP transmission and stream sequence numbers) are made on extended values or on signed differences, never by comparing the raw wrapped values.",
  ["histories"], "every pair of counter values, in particular around the wrap",
  "Wrap-around needs long histories or chosen starting values.",
  ["src/sctp/*.cpp","src/srtp_connection.cpp","src/twcc_*.cpp","src/jitter_buffer.cpp","src/extended_value.cpp","src/replay_protection.cpp"],
  [("signed difference and extended value helpers","src/sctp/sctp_session.cpp, include/srtc/extended_value.h")])
p("C26", "Logging can never corrupt memory or leak it",
  "Every diagnostic message is formatted with a constant format string whose conversions match the number and types of its arguments, so no remote text is interpreted as a format and no argument is misread.",
  ["inputs"], "every log statement, every argument value",
  "Logging is off in the tests and the logging function is not checked by the compiler.",
  ["include/srtc/logging.h","src/*.cpp"],
  [("printf style log function without a format attribute","include/srtc/logging.h")])
p("C27", "Every native resource is released exactly once",
  "Every socket, event descriptor, timer descriptor, cryptographic context, certificate and handshake object the library acquires has one owner that releases it on every exit path, including error exits, and a released handle is not used again.",
  ["fault_sequences","histories"], "every exit path of every acquiring function, every object life cycle",
  "Leaks and double releases on error paths do not change test results.",
  ["src/srtp_crypto.cpp","src/srtp_connection.cpp","src/x509_*.cpp","src/event_loop_linux.cpp","src/socket_*.cpp","src/peer_candidate.cpp","src/hmac*.cpp"],
  [("owner destructors and error exits","files that call acquire functions of OpenSSL or the operating system")])

p("C30", "Received frames are delivered complete, in order and at most once",
  "Per track, assembled frames are delivered in capture order, each at most once, never mixing packets of different frames.",
  ["inputs","histories","schedules"], "every loss, reordering and duplication history and every timing of the buffer's deadlines",
  "Tests sample the pieces; the guarantee is over arrival histories and deadlines.",
  ["src/jitter_buffer.cpp","src/depacketizer_*.cpp"], [("jitter buffer dequeue","src/jitter_buffer.cpp")])
p("C31", "Packetizing and depacketizing a frame yields the same frame",
  "For every codec, feeding the packets produced for a frame back through reassembly gives the original frame bytes.",
  ["inputs"], "every frame and packet size", "Round-trip equality over all inputs; tests sample a few.",
  ["src/packetizer_*.cpp","src/depacketizer_*.cpp"], [("mirror image fragmentation formats","src/packetizer_*.cpp and src/depacketizer_*.cpp")])
p("C32", "Congestion feedback and statistics report true receive times and losses",
  "Transport-wide feedback, receiver reports and the bandwidth, loss and round-trip figures derived from them equal the actual arrival times and losses within clock resolution.",
  ["histories"], "every arrival history", "Numerical accuracy over arrival histories.",
  ["src/twcc_*.cpp","src/peer_candidate_stats*.cpp"], [("delta encoding","src/twcc_subscribe.cpp")])
p("C33", "Paced sending keeps order and spreads packets over the frame interval",
  "Packets of a stream leave in order, none is lost by the pacer, and bursts are spread over the configured interval.",
  ["schedules","histories"], "every frame timing", "Depends on real time and loop timing.",
  ["src/send_pacer.cpp"], [("pacer queue","src/send_pacer.cpp")])
p("C34", "No datagram exceeds the negotiated packet size",
  "Every protected packet fits the path MTU the library was configured for.",
  ["inputs","configurations"], "every frame, extension set and cipher suite", "Depends on run-time sizes of extensions, parameter sets and overhead.",
  ["src/packetizer_*.cpp"], [("packet size budget","src/packetizer.cpp")])
p("C35", "Data channel messages arrive intact and in order on ordered channels",
  "Each message sent on an ordered channel is delivered once, unmodified and in sending order, under any loss and reordering.",
  ["histories","fault_sequences"], "every loss and reordering history", "Needs network histories; the reassembly tests use a few.",
  ["src/sctp/*.cpp"], [("reassembly buffer","src/sctp/*")])
p("C36", "Lost media packets reported by the receiver are retransmitted in time",
  "A negative acknowledgement for a packet still in the send history leads to one retransmission of the same payload soon enough to be useful.",
  ["histories","schedules"], "every loss history", "Timeliness and history dependent.",
  ["src/rtp_responder*.cpp","src/peer_candidate.cpp"], [("send history lookup","src/peer_candidate.cpp")])

out = os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), "properties.jsonl")
with open(out, "w") as f:
    for d in P: f.write(json.dumps(d) + "\n")
print(len(P), "properties")
