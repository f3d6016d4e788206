import json
def P(id,title,statement,over,text,why,files,mech,state=None,observe=None,hook=None):
    a={"files":files,"mechanism":[{"name":n,"where":w} for n,w in mech],"hook_needed":hook}
    if state: a["state"]=[{"name":n,"meaning":m,"where":w} for n,m,w in state]
    if observe: a["observe_at"]=observe
    return {"id":id,"title":title,"statement":statement,"quantifier":{"over":over,"text":text},"why_tests_cant":why,"anchors":a}
LIB="src/lib.rs"
V4=["src/v4/%s.rs"%x for x in "mod connack connect disconnect ping puback pubcomp publish pubrec pubrel suback subscribe unsuback unsubscribe".split()]
V5=[x.replace("v4","v5") for x in V4]
inb=("input stream buffer","bytes received on a connection and not yet decoded","caller-owned BytesMut passed to v4::read / v5::read")
outb=("output buffer","bytes encoded and not yet accepted by the socket","caller-owned BytesMut passed to every packet's write")
props=[
P("S01","Decoding does not depend on how the stream is chunked",
 "For every byte stream a peer can send, valid or not, the sequence of packets and errors a connection's decoder yields is the same however the network splits, coalesces or delays the bytes and whenever the application polls. It equals what is obtained when the whole stream is present at once, and what is obtained when each frame is decoded alone.",
 ["schedules","inputs","fault_sequences"],"every byte stream (valid packets, damaged packets, garbage), every segmentation of it, every interleaving of arrivals and polls, both protocol versions",
 "Every unit test hands the decoder one complete, hand-written frame; the only test that fed a stream in random pieces (tests/smoke.rs) is commented out, so no segmentation is exercised at all.",
 [LIB,"src/v4/mod.rs","src/v5/mod.rs"],[("header check before any consumption","src/lib.rs check / parse_fixed_header / length"),("frame split, then decode of the detached frame only","src/v4/mod.rs read, src/v5/mod.rs read")],[inb],["result sequence of v4::read / v5::read"]),
P("S02","A request for more bytes is honest and never stalls the reader",
 "While a frame is incomplete the decoder asks for more bytes and leaves the input untouched; the count it asks for is at least one, never reaches past the end of the frame, and is exactly the shortfall once the length field is complete. Once the whole frame is present the decoder never asks for more, so a reader that always supplies just the requested number of bytes gets each frame's outcome after at most six requests.",
 ["schedules","inputs","fault_sequences"],"every prefix of every frame, well formed or damaged, with any bytes of later frames behind it; both versions; readers driven by the hint and readers driven by arbitrary segments",
 "No test calls the decoder with an incomplete frame, and none checks the requested count; a wrong count only shows as a stalled or over-reading connection for particular splits.",
 [LIB]+V5[1:3]+["src/v5/publish.rs","src/v5/disconnect.rs"],[("shortfall computation","src/lib.rs check, parse_fixed_header, length"),("property-length reader shared with the header parser","src/v5/mod.rs")],[inb],["Error::InsufficientBytes(n) returned by check / read"]),
P("S03","One frame's outcome never costs a byte of its neighbours",
 "When a complete frame is decoded, successfully or with an error in its content, exactly the bytes of that frame leave the input and every following frame decodes as if the bad one had not been there. A refusal made before the frame can be delimited (bad length field, size limit) leaves the input unchanged.",
 ["schedules","inputs","fault_sequences"],"every stream mixing valid and damaged frames, under every segmentation, both versions",
 "Tests never decode two frames from one buffer and never continue after an error, so over- and under-consumption on success or failure is invisible to them.",
 [LIB,"src/v4/mod.rs","src/v5/mod.rs"],[("split_to(frame_length) before dispatch","src/v4/mod.rs read, src/v5/mod.rs read")],[inb],["input buffer length and content before/after read"]),
P("S04","The size limit is exact and takes effect before the body is buffered",
 "With a limit L, a frame whose announced remaining length is at most L is never refused for its size, and one above L is refused, with an error naming the announced length, as soon as its length field has arrived and however many body bytes are present. A receiver that polls after every arrival and hangs up on that error therefore never has to hold more than L plus five bytes of an unfinished frame.",
 ["schedules","inputs","configurations","fault_sequences"],"every limit, every announced length around it (all one- to four-byte length encodings), a hostile peer that drips bytes or stalls, every segmentation",
 "No test ever reaches the limit: all of them bypass check() or pass complete small frames.",
 [LIB],[("limit comparison before the completeness test","src/lib.rs check")],[inb],["Error::PayloadSizeLimitExceeded"]),
P("S05","Peeking at a frame agrees with decoding it",
 "A successful header check reports the packet type and the total frame length of the next frame truthfully, consumes nothing, and keeps being right when more bytes arrive before the decode. Splitting off that many bytes and decoding them with the reader of the reported packet type gives the same outcome as decoding straight from the stream.",
 ["schedules","inputs"],"every stream and segmentation, any number of arrivals between peek and decode, both versions, all packet types with a reader",
 "Tests use this route for one fixed frame per packet type and never compare it with the stream route nor let bytes arrive in between.",
 [LIB,"src/v4/mod.rs","src/v5/mod.rs"],[("FixedHeader carried from check to the packet readers","src/lib.rs check, FixedHeader")],[inb],["check, FixedHeader::packet_type / frame_length, <Packet>::read"]),
P("C01","Connections do not influence one another",
 "When one process serves many connections of both protocol versions, what is decoded and encoded on each of them is exactly what it would be if that connection were served alone, whatever the interleaving and whatever faults the other connections suffer. Packets already handed to the application never change when buffers are reused.",
 ["schedules","histories","fault_sequences"],"every interleaving of encode, decode, reset and error events over several connections",
 "Each unit test uses one buffer once; shared or leftover state between calls needs a history across connections to show.",
 [LIB,"src/v4/mod.rs","src/v5/mod.rs"],[("all state lives in the caller's buffers","src/lib.rs, src/v4/mod.rs, src/v5/mod.rs")],[inb,outb],["per-connection result and byte histories"]),
P("E01","MQTT 3.1.1 packets arrive as sent, in order, once",
 "Two MQTT 3.1.1 endpoints that encode with one side of the library and decode with the other exchange any sequence of well-formed packets without change: each one arrives equal to what was sent, in order, exactly once, up to the point where the connection breaks. This holds for pipelined packets sharing an output buffer, partial socket writes, any segmentation and reconnects at any byte. The login of a delivered CONNECT validates against exactly the user name and password that were sent.",
 ["schedules","inputs","histories","fault_sequences"],"all sequences of the 14 packet kinds with every field value representable in MQTT 3.1.1, every flush/segment/reset schedule",
 "The tests check one literal sample for some packets (disconnect, ping, pubrec, pubrel, pubcomp, unsuback and unsubscribe have none), always into an empty buffer.",
 [LIB]+V4,[("symmetric read/write per packet","src/v4/*.rs"),("length-prefixed primitives","src/lib.rs write_* / read_*")],[inb,outb],["v4::read results against packets passed to write"]),
P("E02","MQTT 5 packets arrive as sent, in order, once",
 "Two MQTT 5 endpoints using the library exchange any sequence of well-formed packets, with any combination of reason codes and properties, without change: each arrives equal to what was sent, in order, exactly once, up to the point where the connection breaks. An empty property set is equivalent to none; nothing else may be lost, merged, moved between fields or leaked into the payload.",
 ["schedules","inputs","histories","fault_sequences"],"all sequences of the 14 packet kinds with every reason code and every subset, multiplicity and size of properties, every flush/segment/reset schedule",
 "Tests check one or two literal samples per packet (all properties or none); subsets, multiplicities, other reason codes, length-encoding boundaries and sequences are never reached.",
 [LIB]+V5,[("symmetric read/write/len per packet and property set","src/v5/*.rs"),("property cursor accounting","src/v5/*.rs extract/read")],[inb,outb],["v5::read results against packets passed to write"]),
P("E03","Encoding appends exactly one frame and accounts for it",
 "Encoding a packet leaves every byte already queued in the output buffer unchanged and appends exactly one frame whose length field matches its content. The byte count reported to the caller is the number of bytes appended, and wherever a packet reports its own length that length is the frame's remaining length.",
 ["histories","schedules","inputs"],"every history of encodes and partial flushes on one output buffer, every packet value, both versions",
 "Tests always encode a single packet into a fresh buffer and ignore the returned count.",
 [LIB]+V4[1:]+V5[1:],[("len() and write() computed separately per packet","src/v4/*.rs, src/v5/*.rs"),("connect flags patched after the fact","src/v4/connect.rs, src/v5/connect.rs Connect::write")],[outb],["output buffer before/after write, returned count, public len()"]),
P("E04","A packet that cannot be sent is refused without a trace",
 "A packet that MQTT cannot represent (a quality-of-service publish with packet id zero, a frame or subscription identifier above 268435455, a string or binary field above 65535 bytes) is refused with an error. A refused encode leaves the output buffer exactly as it was, so the packets before and after it are delivered undamaged.",
 ["histories","fault_sequences","inputs"],"every history of encodes in which refusals occur at arbitrary points, with data pending or partly flushed, both versions",
 "No test provokes an encode error, and none looks at the buffer after one.",
 [LIB,"src/v4/publish.rs","src/v5/publish.rs","src/v5/subscribe.rs"],[("limit and packet id checks in write","src/lib.rs write_remaining_length, src/v4/publish.rs, src/v5/publish.rs"),("16-bit length prefix","src/lib.rs write_mqtt_bytes")],[outb],["Result of write and output buffer content"]),
P("H01","No peer can crash or hang an endpoint, or make it do I/O",
 "Whatever bytes arrive, in whatever pieces and whatever damaged, the decoder returns a packet, an error or a request for more; it never panics, overflows, aborts or fails to return, and it touches nothing outside the buffers it was given, even when the process's standard streams are full. The same holds for what an endpoint does with an accepted packet: forwarding it, measuring it, printing it, and matching or validating the topics in it.",
 ["inputs","schedules","fault_sequences"],"all byte streams from a hostile peer or damaged link, all segmentations, failing standard output and error streams, both versions",
 "Tests feed a few well-formed samples and non-panicking ASCII topics; a panic needs a particular damaged or non-ASCII input, and leftover diagnostics only matter when standard error fails.",
 [LIB,"src/topic.rs"]+V4+V5,[("bounds-checked readers","src/lib.rs read_u8/read_u16/read_u32/read_mqtt_bytes"),("topic predicates on peer-controlled strings","src/topic.rs")],[inb],["return of read/write/matches/valid_* under catch_unwind, watchdog and failing fds"]),
P("H02","Memory use follows received bytes, not announced lengths",
 "Decoding never allocates more than a fixed multiple of the bytes actually received for the frame at hand plus a small constant, whatever lengths and counts those bytes announce. A call that ends in a request for more bytes or in a size refusal allocates next to nothing.",
 ["inputs","schedules","fault_sequences"],"all hostile frames and partial frames with arbitrary announced lengths, every segmentation, both versions",
 "No test observes allocation; a length-driven reservation passes every functional test.",
 [LIB]+V4+V5,[("zero-copy split of received bytes","src/lib.rs read_mqtt_bytes, src/v4/mod.rs, src/v5/mod.rs")],[inb],["counting allocator around read"]),
P("H03","A damaged frame is refused, never misread",
 "A complete frame is accepted only if every field lies within the frame and within its own length bounds, and then each decoded field is exactly what the MQTT grammar assigns to those bytes. Frames with cut-off or overrunning fields or property sections, text that is not UTF-8, unknown or misplaced properties, invalid quality-of-service, reason, return or retain-handling codes, a zero packet id on an acknowledged publish, an unknown protocol name or level, or an empty acknowledgement, subscription or unsubscription list are refused with an error.",
 ["inputs","fault_sequences","schedules"],"all frames obtained from valid ones by damage of any field (length, count, identifier, code, flag, text), plus random garbage, both versions, delivered under any segmentation; outside the claim: a level-5 CONNECT given to the 3.1.1 decoder, and bytes the grammar leaves without meaning (trailing bytes, reserved flag bits)",
 "Tests decode well-formed samples only; not one test expects a decode error.",
 [LIB]+V4+V5,[("bounds checks and enumerations in the packet readers","src/lib.rs read_*, src/v4/*.rs, src/v5/*.rs"),("property section bound","src/v5/*.rs extract/read")],[inb],["read results against an independent grammar decoder"]),
P("H04","Accepted packets survive being forwarded",
 "Any packet the decoder accepts, even from a damaged or hostile stream, can be encoded again, and the next hop decodes the same packet from it. Chains of relays therefore agree on every packet and none of them emits a frame the next one rejects.",
 ["inputs","histories","fault_sequences"],"all accepted frames, including non-canonical ones a hostile peer can construct, relayed over one or more hops under any segmentation, both versions",
 "Tests compare one direction with literals; none re-encodes what was decoded from unusual but accepted input.",
 [LIB]+V4+V5,[("symmetric read/write per packet","src/v4/*.rs, src/v5/*.rs")],[inb,outb],["packet at each hop of a simulated relay chain"]),
P("I01","Standard packets from other implementations are understood",
 "Every packet that the MQTT 3.1.1 or MQTT 5 standard allows a peer to send (except AUTH), in any of its allowed encodings (property order, repeated user properties, omitted or explicit reason codes and empty property sets), is accepted and decoded to the field values the standard gives it. This holds at any position in a session with such a peer and under any segmentation.",
 ["inputs","schedules","configurations"],"all standard-conformant packets of both versions from an independent encoder with its encoding freedoms, any session and segmentation; a user name or password that is present but empty counts as absent, and passwords are text, as the packet type can hold nothing else",
 "Samples in the tests were produced for the encoder's own order and forms; alternative legal encodings and most packet kinds are absent.",
 [LIB]+V4+V5,[("packet readers","src/v4/*.rs, src/v5/*.rs"),("property and code tables","src/v5/mod.rs, src/v5/*.rs")],[inb],["read results against the values the independent peer encoded"]),
P("I02","Emitted packets are standard and mean what was asked",
 "Every packet with standard-conformant field values is encoded as a frame that an independent strict MQTT decoder accepts in full, with the fixed-header flags the standard requires, and decodes to the same field values. This holds for any sequence of packets sent through a shared buffer and any flush schedule.",
 ["inputs","schedules","histories"],"all standard-conformant packet values of both versions, any send/flush history, to an independent decoder",
 "Round trips through the same library cannot see a mistake made the same way on both sides; literal samples cover one value per packet.",
 [LIB]+V4+V5,[("packet writers","src/v4/*.rs, src/v5/*.rs"),("property and code tables","src/v5/mod.rs")],[outb],["bytes on the simulated wire"]),
P("Q01","QoS sessions built on the codec keep their delivery guarantees",
 "A client and broker that run the standard QoS 1 and QoS 2 exchanges over these packets, keep session state across reconnects and resend with the duplicate flag, deliver QoS 1 messages at least once and QoS 2 messages exactly once with unchanged topic and payload, despite connection resets at any byte, delays and stalls. The session-present and duplicate flags the peer set arrive as set. Once faults stop, every outstanding exchange completes within a bounded number of steps and keep-alive exchanges are answered.",
 ["schedules","crash_points","histories","fault_sequences"],"all interleavings of publishes in both directions, acknowledgements, timers, connection resets and endpoint restarts with durable session state, both versions",
 "Tests never combine packets into an exchange, let alone across a reconnect.",
 [LIB,"src/v4/publish.rs","src/v4/puback.rs","src/v4/pubrec.rs","src/v4/pubrel.rs","src/v4/pubcomp.rs","src/v4/connect.rs","src/v4/connack.rs","src/v4/ping.rs","src/v5/publish.rs","src/v5/puback.rs","src/v5/pubrec.rs","src/v5/pubrel.rs","src/v5/pubcomp.rs","src/v5/connect.rs","src/v5/connack.rs"],[("packet ids, dup flag and ack kinds carried by the codec","src/v4/*.rs, src/v5/*.rs")],[inb,outb],["messages delivered to the applications of the simulated client and broker"]),
P("V01","A broker can accept both versions on one port",
 "The MQTT 5 decoder given the first packet of a connection recognises a CONNECT of either version, and for an MQTT 3.1.1 CONNECT yields the same identity, keep-alive, session flag, will and credentials as the 3.1.1 decoder, without consuming a byte behind it, so that the connection can continue with the matching decoder. A CONNECT that was decoded or built for version 3.1.1 is encoded in the 3.1.1 layout.",
 ["inputs","schedules","configurations"],"all CONNECT packets of both versions with data pipelined behind them, any segmentation, any mix of client versions",
 "The tests decode one MQTT 5 CONNECT per sample with the MQTT 5 decoder; the branch for protocol level 4 is never executed.",
 [LIB,"src/v5/connect.rs","src/v4/connect.rs"],[("protocol level dispatch in the connect reader and writer","src/v5/connect.rs Connect::read / write")],[inb],["first packet and following packets at the simulated broker"]),
P("R01","Messages reach exactly the subscribers whose filters match",
 "A broker that keeps subscriptions and retained messages from the packets it decodes and asks the library about topics hands every message to exactly those clients that hold a matching filter at that moment: level by level equal, '+' for one level, a final '#' for the parent and all below, no filter for topics beginning with '$'. Malformed filters ('#' not alone at the end, '+' sharing a level, empty) and topic names with wildcards are turned down and change nothing. Quality of service, retain flag, retain handling, no-local, subscription identifiers and result codes come out as asked for, whatever the interleaving of subscribing, unsubscribing, publishing, reconnecting and failing.",
 ["schedules","histories","inputs","fault_sequences"],"all histories of subscribe, unsubscribe, publish, retained publish, reconnect, connection loss and broker restart by clients of both versions with arbitrary topics and filters, every segmentation and delay",
 "The topic tests sample about twenty ASCII pairs and no misplaced wildcard; no test connects a subscription to a message, let alone through a history of changes.",
 ["src/topic.rs","src/v4/subscribe.rs","src/v4/unsubscribe.rs","src/v4/suback.rs","src/v4/publish.rs","src/v5/subscribe.rs","src/v5/unsubscribe.rs","src/v5/suback.rs","src/v5/unsuback.rs","src/v5/publish.rs"],[("topic predicates","src/topic.rs matches / valid_filter / valid_topic / has_wildcards"),("subscription options and identifiers, retain flag","src/v4/subscribe.rs, src/v5/subscribe.rs, src/v5/publish.rs")],[inb,outb],["actions of the simulated broker against a reference broker; packets at the simulated clients"]),
P("R02","What client and broker agree on is what governs the connection",
 "Everything a client and a broker tell each other about a connection takes effect as it was said: keep-alive and server keep-alive, clean start, session expiry and session present, assigned identifiers and takeover, credentials, wills with their delay, receive maximum, maximum packet size, topic aliases, maximum quality of service, and the reasons given for refusing or ending it. This holds through any history of connects, orderly and disorderly ends, silence, timer expiry, network faults and broker restarts, with both versions sharing the broker.",
 ["schedules","histories","crash_points","configurations","fault_sequences"],"all histories of connections by clients of both versions with any combination of connect, acknowledgement, will and disconnect settings, in simulated time from microseconds to weeks, with stalls, resets, silence and broker restarts",
 "Tests compare single CONNECT, CONNACK and DISCONNECT samples; no test has time, a second connection or a consequence of a setting in it.",
 ["src/v4/connect.rs","src/v4/connack.rs","src/v4/disconnect.rs","src/v5/connect.rs","src/v5/connack.rs","src/v5/disconnect.rs","src/v5/publish.rs","src/v5/puback.rs","src/v5/pubrec.rs"],[("connection settings, wills and login","src/v4/connect.rs, src/v5/connect.rs"),("answers and reasons","src/v5/connack.rs, src/v5/disconnect.rs")],[inb,outb],["actions and timers of the simulated broker against a reference broker; packets at the simulated clients"]),
P("T01","Topic matching follows the wildcard rules",
 "A topic matches a filter exactly when, level by level, each filter level equals the topic level or is a single-level wildcard, and a trailing multi-level wildcard matches the parent and any number of further levels. Topics beginning with a dollar sign match no filter, and the answer for any pair of strings is given without failure.",
 ["inputs"],"all topic and filter strings",
 "Tests sample about twenty ASCII pairs.",
 ["src/topic.rs"],[("level-by-level walk","src/topic.rs matches")]),
P("T02","Topic names and filters are validated by the standard's rules",
 "A filter is valid exactly when it is not empty, a multi-level wildcard appears only as the whole last level, and a single-level wildcard only as a whole level. A topic name is valid exactly when it contains no wildcard, and a string is reported to have wildcards exactly when it contains one.",
 ["inputs"],"all strings",
 "Tests sample a handful of ASCII strings and none with a misplaced single-level wildcard in a filter.",
 ["src/topic.rs"],[("valid_filter, valid_topic, has_wildcards","src/topic.rs")]),
]
open('/verif/properties.jsonl','w').write(''.join(json.dumps(p)+'\n' for p in props))
for p in props:
    assert len(p['title'])<=80,(p['id'],len(p['title']))
    assert p['statement'].count('. ')<=2,p['id']
