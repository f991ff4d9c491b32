TECH = {
 "C01": "differential property-based testing of the decoder against a reference encoder",
 "C02": "differential property-based testing of the encoder against a reference encoder",
 "C03": "round-trip property-based testing over accepted byte strings",
 "C04": "structured fuzzing of every decoder (crash, hang and report oracle)",
 "C05": "generated corruption of packets against an independent checksum",
 "C06": "generated truncation and over-declaration, all cut points enumerated",
 "C07": "property-based testing with stand-in keys against a reference transformation",
 "C08": "differential property-based testing against an independent protobuf model",
 "C09": "metamorphic property-based testing (insertion of unsupported parts)",
 "C10": "model-based testing of generated sessions against the real server over TCP",
 "C11": "model-based testing of the server's reply stream with an independent parser",
 "C12": "metamorphic testing over generated segmentations of the byte stream",
 "C13": "generated malformed packets, differential against the session without them",
 "C14": "fuzzing with hostile clients next to normal sessions, differential against solo runs",
 "C15": "generated interleavings and free concurrency under the race detector, differential against solo runs",
 "C16": "model-based testing of identity histories, record triples enumerated",
 "C17": "fault injection into recording stores by generated plans, against a model",
 "C18": "generated timing scripts against short connection lifetimes",
 "C19": "generated traffic and session states before a stop",
 "C20": "model-based testing of registration/save histories with injected failures; generated configurations against protocol stand-ins",
 "C21": "generated payloads, settings and fault plans against protocol-level stand-in servers of every backend",
 "C22": "round-trip property-based testing of generated settings through YAML files",
 "C23": "model-based testing of the receiver program with generated configuration files and sessions",
 "C24": "generated parameters and server behaviours against the packet generator program, bytes read by an independent parser",
 "C25": "round-trip property-based testing of generated records with an independent reading of the JSON",
 "C26": "generated sessions and kill points (SIGKILL) against the built receiver program with stand-in backends; oracle: reference session model, stored >= confirmed and stored is a prefix of what was sent, then restart and repeat; failing cases are minimised and replayed",
 "C27": "stateful property-based testing over generated outage histories (fault injection at protocol-level stand-ins), through the repository and through the built receiver program; oracle: every message looked up in every store after every save",
 "C28": "stateful property-based testing over generated call histories and concurrent schedules under the race detector; oracle: the same call made alone (differential), snapshots of inputs and results (invariant)",
 "C29": "differential property-based testing of the JSON form against one made from the transmitted values by an independent table",
 "C30": "property-based testing of the tool as a process against a server that answers by a generated script; oracle: the packets the file was made from",
 "C31": "property-based testing of histories of sessions against a server process; oracle: its goroutines, open files and heap in use after the sessions compared with before (a leak is growth with every repetition)",
 "C32": "property-based testing of histories of saves against stand-ins of the backends; oracle: what is held after many saves compared with after few (a leak is growth in every later step)",
 "C33": "property-based testing with generated packets at two sizes; oracle: memory allocated and processor time per byte of the larger against the smaller (metamorphic), and a constant bound",
}
SAMPLED = "Sampled, not exhaustive: assurance grows with the number of generated cases. "
NOTE = {
 "C01": SAMPLED + "Trusts the reference model in harness/ref, written from the published layout; presence-flag and header-flag bytes are enumerated completely.",
 "C02": SAMPLED + "Trusts the reference model; EGTS+ bytes are left to C08 because protobuf field order is free.",
 "C03": SAMPLED + "Inputs are valid packets and mutants that the decoder accepts; equality is over exported fields.",
 "C04": SAMPLED + "Short inputs and all header lengths are enumerated; a hang is a case without result for 60 s.",
 "C05": SAMPLED + "All single-bit errors of sample packets are enumerated; the checksums are recomputed independently.",
 "C06": SAMPLED + "Every cut point of every subrecord kind is enumerated. One known finding is tolerated by its exact outcome.",
 "C07": SAMPLED + "Keys are stand-ins for the SecretKey interface; the library ships no cipher of its own.",
 "C08": SAMPLED + "Every schema field is enumerated with boundary values; trusts the schema table transcribed from docs/.",
 "C09": SAMPLED + "Every unsupported type code is enumerated at every position of a sample packet.",
 "C10": SAMPLED + "Two known findings are tolerated by their exact value. Records with two positions are left out: their meaning is not fixed.",
 "C11": SAMPLED + "The id and record number of the server's own packets are not fixed by the property and not compared.",
 "C12": SAMPLED + "All cut points of a four-packet stream are enumerated; that the server really saw a cut is best effort (receive queue watched).",
 "C13": SAMPLED + "The expected code is that of the decoder in the tree, except that a wrong checksum must be refused.",
 "C14": SAMPLED + "A client that stops reading can block only its own session; resource exhaustion by thousands of clients is not explored.",
 "C15": SAMPLED + "Interleavings of the clients' sends are generated; the server's scheduling is the Go runtime's. Race detection covers what was executed.",
 "C16": SAMPLED + "All triples of record kinds in all packetings are enumerated.",
 "C17": SAMPLED + "Stores are recording stand-ins behind the storage interface; backends are C21.",
 "C18": SAMPLED + "Lifetimes of 0.6 to 1 s; limits are generous and a time-out counts only when it repeats, so lateness below 6 s is not noticed.",
 "C19": SAMPLED + "What happens to sessions still open at the stop is not fixed by the property.",
 "C20": SAMPLED + "An unreachable Redis is not noticed at start-up by design of its client and left out.",
 "C21": SAMPLED + "The backends are stand-ins speaking the real protocols (no live databases here); NATS and RabbitMQ do not acknowledge, so only refusals their client can know of are expected as errors.",
 "C22": SAMPLED + "YAML files are written by the harness in several styles; the reader trusts the yaml package only through the code under test.",
 "C23": SAMPLED + "Backends are stand-ins; the log is read from the program's output.",
 "C24": SAMPLED + "Times, ids and coordinates within their wire range; coordinates compared to one wire unit, times to the whole second.",
 "C25": SAMPLED + "Numbers are compared by exact value, not by spelling; extra or missing keys are reported.",
 "C26": SAMPLED + "Kill points are hit by timing (attempt and reply counts plus microseconds), not by instrumenting the program; NATS and RabbitMQ, which confirm nothing to the connector, are left out; death of the backends is C27's subject, power loss nobody's.",
 "C27": SAMPLED + "NATS and RabbitMQ confirm nothing to the connector, so nothing is saved to them in the 300 ms in which a loss is noticed. An outage is a lost connection and connections closed at once, not a silent network. That RabbitMQ is never reconnected is a listed finding.",
 "C28": SAMPLED + "Different structures per goroutine; simultaneous calls on one and the same structure are not promised to be safe and not made.",
 "C29": SAMPLED + "Further keys are allowed. The time of a record without a time field, the unused source data field, and NaN and infinite floats (JSON has no form for them) are not compared. Invalid UTF-8 must come out as U+FFFD.",
 "C30": SAMPLED + "The pause of one second after each packet is shortened to 1 ms by a sitecustomize module and not checked. Replies are sent in one piece. Empty lines, and servers that close early, are not generated.",
 "C31": SAMPLED + "What a session leaves behind once and for all is tolerated; only what grows counts. Growth below 96 bytes per session or 32 bytes per packet is not seen. Saves that never return are not generated.",
 "C32": SAMPLED + "What a connector holds once and for all is tolerated. Memory growth below 64 bytes per save is not seen. Backends are stand-ins for the protocols.",
 "C33": SAMPLED + "A factor below three between an eighth of a packet and a whole one is not seen, nor a constant factor below the bound (800 bytes allocated per byte).",
}
