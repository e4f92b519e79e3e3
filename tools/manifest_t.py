MODEL = "The oracle is a strict model of a TLS 1.3 client written from RFC 8446 in harness/tmon/src/model.rs; where the standard leaves the choice of alert open, any fatal alert is accepted. Reach is the workload: counted in the evidence."
checks.update({
 'T01': ("runtime monitor: hostile server flights (plaintext and under the right keys) into the real client in worker processes; aborts, hangs and missing errors observed", "Crashes are seen as process deaths, hangs as a CPU limit per case and a bound on reads. " + MODEL),
 'T02': ("runtime monitor: strict ClientHello parser over the bytes sent for random and boundary configurations", "All values of each configuration bit set in isolation, names and lists up to the length limits; parser written from RFC 8446."),
 'T03': ("runtime monitor with fault injection into the random number generator; generator log checked against the bytes sent", "The generator crate is replaced at link level by a scripted one."),
 'T04': ("runtime monitor: equality of event traces between whole and partitioned, interrupted delivery", "A would-block at every byte of some flights, random partitions of many."),
 'T05': ("runtime monitor: equality of delivered bytes under partial and failing writes", "A would-block at every byte of some hellos, random acceptance of many, including multi-record hellos."),
 'T06': ("runtime monitor: independent TLS 1.3 server (reference P-256, HKDF, AEAD) must be able to talk to the client", REF),
 'T07': ("runtime monitor: record-layer attacks judged by a client model", MODEL),
 'T08': ("runtime monitor: generated and mutated ServerHellos judged by a client model", MODEL),
 'T09': ("runtime monitor: generated and mutated EncryptedExtensions and reused objects judged by a client model", MODEL),
 'T10': ("runtime monitor: message order, boundaries and record types judged by a client model", MODEL),
 'T11': ("runtime monitor: alerts in every form and at every step judged by a client model; all 65536 level/code pairs in thorough runs", MODEL),
 'T12': ("online trace monitor of the write and close callbacks and the error report", MODEL),
 'T13': ("differential runtime monitor: event traces of a reused object against a new one", "Histories of one to three earlier attempts ended or interrupted at random points."),
 'T14': ("AddressSanitizer with leak detection, allocation balance and Miri over random API histories", "Sanitizers see executed paths only; Miri runs a few dozen histories, its processes are stopped after a fixed time and what they covered is counted."),
 'T15': ("runtime monitor: generated, mutated and re-encoded certificate messages judged by a strict DER/X.509 model", MODEL),
 'T16': ("C and C++ programs compiled against the header with address and undefined-behaviour sanitizers, linked to the built shared library, checking documented behaviour", "Constants and documented defaults are written in the programs; functions are called with all enumerators and random configurations."),
 'T17': ("differential runtime monitor of interleaved and threaded connections against solo runs, under ThreadSanitizer", "Data races are seen on executed schedules; interleavings on one thread are exact and replayable."),
 'T18': ("runtime monitor: record and message lengths at and around every limit judged by a client model", MODEL),
})
