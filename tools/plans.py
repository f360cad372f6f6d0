"""What each check runs.

calls: (kind, random calls compared with the pinned copy, of these recorded)
models: (module[, config]) in spec/mc, checked exhaustively; deep: only thorough;
small: models of small scope, whose inputs are all given to the code too
wrong: models of wrong designs, that have to fail
more: functions of the check's context, for histories and programs
"""
import histories

# how many times as many calls are recorded in the thorough tier, if not 10
DEEPER = {"seg": 5, "hist": 5, "wf": 5, "edit": 5, "tm": 5, "tmo": 5, "e2e": 5, "iso": 5, "sdeliver": 5}
PLANS = {
    "C01": {"small": ["MC_Delivery"], "calls": [("e2e", 80000, 1500)]},
    "C02": {"small": ["MC_Wire"], "calls": [("wf", 20000, 1500)]},
    "C03": {"small": ["MC_Segment"], "calls": [("seg", 60000, 1200), ("blk", 20000, 1000)]},
    "C04": {"build": ["race"], "small": ["MC_Encoder"], "models": [("MC_Counters",)], "deep": [("MC_Counters", "MC_CountersDeep")],
            "wrong": [("MC_Counters", "MC_CountersSplit")], "calls": [("hist", 40000, 1500), ("seg", 6000, 100), ("shared", 1000, 150)],
            "more": [histories.parallel(("shared", 96), shards=16)]},
    "C05": {"small": ["MC_Text"], "calls": [("eud", 200000, 4000), ("hist", 20000, 1000)]},
    "C06": {"small": ["MC_Encoder"], "calls": [("iso", 60000, 3000), ("seg", 30000, 600), ("hist", 20000, 1000)]},
    "C07": {"build": ["col"], "models": [("MC_Collector",), ("MC_Collector", "MC_CollectorCore")], "deep": [("MC_Collector", "MC_CollectorDeep"), ("MC_Collector", "MC_CollectorCoreDeep")],
            "proofs": ["ReassemblyProofs"],
            "more": [histories.collector("C07", 40000, 2000)]},
    "C08": {"build": ["col"], "models": [("MC_Collector",), ("MC_Collector", "MC_CollectorCore")], "deep": [("MC_Collector", "MC_CollectorDeep"), ("MC_Collector", "MC_CollectorCoreDeep")],
            "proofs": ["ReassemblyProofs"],
            "more": [histories.collector("C08", 40000, 2000)]},
    "C09": {"build": ["col"], "models": [("MC_Collector", "MC_CollectorLive")], "deep": [("MC_Collector", "MC_CollectorDeep")],
            "more": [histories.collector("C09", 40000, 2000)]},
    "C10": {"build": ["col", "colrace"], "models": [("MC_CollectorImpl",)], "deep": [("MC_CollectorImpl", "MC_CollectorImplDeep")],
            "more": [histories.concurrent(3000)]},
    "C11": {"small": ["MC_Tpdu"], "calls": [("tm", 200000, 4000), ("tmo", 100000, 2000)]},
    "C12": {"small": ["MC_Tpdu"], "calls": [("tu", 400000, 6000), ("udhu", 200000, 2000), ("addru", 100000, 1000)]},
    "C13": {"small": ["MC_Septets"], "calls": [("pack", 400000, 4000), ("unpack", 400000, 4000)]},
    "C14": {"small": ["MC_Charsets"], "calls": [("genc", 300000, 3000), ("gdec", 300000, 3000), ("ctab", 60, 60)]},
    "C15": {"small": ["MC_Ucs2"], "calls": [("uenc", 200000, 3000), ("udec", 200000, 3000), ("split", 100000, 2000), ("dec", 60000, 600)]},
    "C16": {"small": ["MC_Header"], "calls": [("udhm", 200000, 3000), ("udhu", 300000, 3000), ("ies", 200000, 3000)]},
    "C17": {"small": ["MC_Numbers"], "calls": [("addrm", 200000, 3000), ("addru", 300000, 3000), ("num", 100000, 2000), ("semie", 100000, 2000), ("semid", 100000, 2000)]},
    "C18": {"small": ["MC_Times"], "calls": [("tsm", 200000, 3000), ("tsu", 200000, 3000), ("vpm", 200000, 3000), ("vpu", 200000, 3000), ("bcd", 2000, 200), ("bcdd", 2000, 200)]},
    "C19": {"small": ["MC_Dcs"], "calls": [("dcs", 2000, 256)]},
    "C20": {"build": ["race"], "proofs": ["LazyProofs"], "models": [("MC_Lazy",), ("MC_Counters",)], "wrong": [("MC_Lazy", "MC_LazyUnlocked")], "calls": [("conc", 1500, 600), ("shared", 600, 100)],
            "more": [histories.parallel(("conc", 280), ("shared", 84), shards=56)]},
    "C21": {"small": ["MC_Complete"], "calls": [("icm", 200000, 5000)]},
    "C22": {"build": ["cmds"], "small": ["MC_Send"], "calls": [("ssubmit", 6000, 1500), ("scount", 6000, 1500)]},
    "C23": {"build": ["cmds"], "small": ["MC_Receive"], "calls": [("sdecode", 8000, 2500), ("sdeliver", 5000, 1000), ("chars", 1, 1)]},
    "C24": {"small": ["MC_Numbers"], "calls": [("pdum", 200000, 4000), ("pduu", 300000, 4000), ("pduh", 200000, 4000)]},
    "C25": {"small": ["MC_Text"], "calls": [("iei", 1, 1), ("dec", 150000, 3000), ("dud", 150000, 3000), ("split", 60000, 1500)]},
    "C27": {"small": ["MC_Refusal"], "calls": [("rej", 300000, 8000), ("rejm", 200000, 6000), ("rejp", 100000, 2000)]},
    "C28": {"calls": [("names", 1, 1), ("str", 100000, 3000)]},
    "C30": {"small": ["MC_Errors"], "calls": [("err", 400000, 8000)]},
    "C29": {"small": ["MC_Reuse"], "models": [("MC_ReuseImpl",), ("MC_Buffer",)], "wrong": [("MC_ReuseImpl", "MC_ReuseKept"), ("MC_Buffer", "MC_BufferKept")], "calls": [("reuse", 80000, 4000)]},
    "C26": {"small": ["MC_Edits"], "calls": [("edit", 60000, 2500), ("build", 60000, 2500), ("vpe", 60000, 2000)]},
}
ASSUMPTIONS = {p: ["the specification is written from 3GPP TS 23.038 and 23.040 and the documentation of the library",
                   "inputs beyond the exhaustive scope are structured cases and seeded random ones"] for p in PLANS}
REPLAY = {k: histories.replay for k in ("col07", "col08", "col09", "colc", "colf")}
TECHNIQUE = {}
NOTES = {
    "C01": "Every order of arrival of up to 12 TPDUs of several messages in flight (both types, all alphabets, both widths of reference) explored by TLC and replayed through encode, marshal, unmarshal, Collector and Decode; random senders that differ little, up to 255 segments.",
    "C02": "Every TPDU of generated Encode and Segment calls is marshalled and read back, and both are compared with the specification's octets; headers of every length, so every fill.",
    "C03": "Blocks of 1 to 9 septets or octets, with every placement of escapes and surrogates in messages up to 5 blocks; the result must be a greedy partition, not one particular list.",
    "C04": "Histories around the wrap of the counters; all interleavings of counting in MC_Counters, whose non-atomic variant is refuted; concurrent calls on one Encoder with the race detector, judged by how counts may be issued.",
    "C05": "Every text of up to 4 characters chosen to separate the tables, with lists of permitted tables in different orders, and histories of options.",
    "C06": "Frame condition over everything the caller holds: buffers with canaries around and beyond them, headers with spare capacity, templates, and all TPDUs returned before.",
    "C07": "Tours through every transition of a TLC-explored Collector over TPDUs that differ in one grouping field each, and random histories, judged by CollectorTrace. That the Collector without its clock (Reassembly, which MC_Collector refines) gives only whole messages is proved for any messages and numbers of segments (thorough tier).",
    "C08": "As C07 with Pipes after each call; a history is blamed on rejections only if it goes well without the calls to be rejected.",
    "C09": "Virtual time (synctest), so each timeout is exact and 'never' is decided; liveness checked on the model; timers fired while the lock is held.",
    "C10": "Linearizability of recorded concurrent histories against the state machine, with and without the race detector; MC_CollectorImpl shows that firing first and cleaning up later refines it.",
    "C11": "All six types with every combination of indicators, both directions; octets compared with the specification, not only a round trip.",
    "C12": "Octets of valid TPDUs cut at every place, extended, and with every octet replaced; random octets. What is accepted must match field by field.",
    "C13": "All septet strings up to 4 over critical values, and patterns of every length to 20, at all 7 fills, both USSD and not; random up to 160.",
    "C14": "All 14 x 14 pairs of tables; every character of each; every pair of septets in critical positions; the whole of each table against the specification's.",
    "C15": "All strings of up to 5 units over the critical ones, cut at every even offset.",
    "C16": "All lists of up to 3 elements over critical identifiers and data, their octets cut and changed; headers around 255 octets.",
    "C17": "All digit strings to length 4 over critical characters for critical types of address, all short octet strings, both address forms and the SMSC address.",
    "C18": "All 256 codes of relative periods and one second either side of each, all 256 values of each octet of a time stamp, BCD exhaustively.",
    "C19": "All 256 octets, all alphabets and classes: complete.",
    "C20": "Concurrent codecs in fresh processes with the race detector, so that every table is used for the first time by several goroutines; each result must be that of the call alone. MC_Lazy without its lock is refuted, and with it proved for any numbers of users and tables (thorough tier).",
    "C21": "All lists of up to 4 segments over critical headers; complete if and only if the model of the Collector returns them.",
    "C22": "The built programs are run; what they print is parsed and compared with the specification's encoding.",
    "C23": "The built programs are run on octets of every type, broken ones included; every printed field is compared with the parse by the specification.",
    "C24": "All short octet strings as frames, binary and hex, upper and lower case.",
    "C25": "All pairs of short segments over critical headers, DCS and permitted tables.",
    "C27": "TPDUs of every type cut at every place, extended and with every octet replaced, and TPDUs with one or two fields that cannot be written; random ones. The specification walks the octets field by field.",
    "C28": "Every exported constant of the protocol, every octet as DCS, indicator and format, and time stamps over a century at every offset.",
    "C29": "All pairs of TPDUs of every type with and without each optional part, cut short ones among them, and all short sequences of periods, addresses, headers, time stamps and frames, read into one variable; random sequences of up to 5. All reads are from the same memory, which the driver overwrites. Reading in place without clearing, and keeping the octets read without copying, are refuted by models.",
    "C30": "Every octet, digit, septet of every table and text of a few characters where one can be refused; TLC shows that something is said exactly if the call is refused, and of a value that is refused on its own too.",
    "C26": "All sequences of up to 3 edits (4 when thorough), from every type, with a look at every accessor after each.",
}
NOT_APPLICABLE = []
