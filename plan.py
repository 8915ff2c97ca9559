"""What is run for each property: variants of the build, and (GOMAXPROCS, perturbation level) of each shard."""
INSTR = {
    "conc": [".", "net", "net/server", "net/client", "net/client/connection"],
    "all": [".", "net", "net/server", "net/client", "net/client/connection", "marshal", "sbox"],
}
DEFAULT_RULE = ("Cases are a fixed list generated from VERIF_SEED; distinct_nontrivial counts distinct signatures "
                "(shape of the case together with what was observed in it) of cases which reached the monitored behaviour.")
CONC = [(4, 0), (2, 1), (8, 1), (4, 2), (1, 2), (8, 2), (3, 3), (6, 3)]
PURE = [(2, 0)] * 8


def pure(rule, **kw):
    return dict(jobs=[dict(variant="plain", shards=PURE)], par=8, rule=rule, **kw)


def clock(rule, **kw):
    """conc, and two workers in which the wall clock of the process is set forth and back all the time."""
    p = conc(rule, **kw)
    p["jobs"].append(dict(variant="step", shards=[(4, 0), (2, 0)]))
    return p


def wraps(rule, **kw):
    """conc, and two workers in which ids of every client connection are about to wrap."""
    p = conc(rule, **kw)
    p["jobs"].append(dict(variant="wrap", shards=[(4, 0), (8, 0)]))
    return p


def conc(rule, **kw):
    return dict(jobs=[dict(variant="instr", shards=CONC)], par=4, rule=rule, **kw)


SCHED = "Schedules are those which the Go scheduler gives under the injected perturbations, not all of them."
WIRE = "Networks are loopback TCP and unix sockets."

PLAN = {
    "C01": conc("A case sends requests to one kind of service and lets answers, cancellation, expiry and stops race for them; each responder is a monitor of exactly-once.", assume=[SCHED]),
    "C02": conc("A case kills requests before, while and after handlers take them; monitors are in the handlers and responders.", assume=[SCHED]),
    "C03": wraps("A case is a set of concurrent callers through a network client to a scripted server; calls and answers are determined by tokens, a ledger of the server is compared with what callers got.", assume=[SCHED, WIRE]),
    "C04": conc("A case cuts a connection at one byte of the stream in one way (all bytes of small streams, random ones of long streams), or is a chaos of faults; ledgers of both sides are compared.", assume=[SCHED, WIRE]),
    "C05": conc("A case changes the count of connections or stops the client under load; ledgers of both sides and the count of connections seen by the server are compared.", assume=[SCHED, WIRE]),
    "C06": conc("A case is a set of raw peers of a server with random pipelining, pings, delays and slow reading; each answer frame is matched with its request frame.", assume=[SCHED, WIRE]),
    "C07": conc("A case abuses a server in one way while healthy peers go on; their answers, cancellation of abandoned requests, goroutines and descriptors are watched.", assume=[SCHED, WIRE]),
    "C08": conc("A case stops a server with peers in different states; every received request and the completion channel are watched.", assume=[SCHED, WIRE]),
    "C09": conc("A case answers a list of codes through raw peers and clients of all widths with random maps, or raises failures of a client.", assume=[WIRE]),
    "C10": pure("A case writes random frames, compares bytes with the documented layout, and reads them back in random fragments and truncations."),
    "C11": conc("A case keeps bodies while further frames arrive, overwrites and appends to some of them, and compares the others with what was sent.", assume=[WIRE]),
    "C12": pure("A case is a random type with random tags and values, encoded and decoded by the library and by a reference codec."),
    "C13": pure("A case is a random type given prefixes and mutations of encodings; panics, results of prefixes, time and allocation are watched."),
    "C14": dict(jobs=[dict(variant="plain", shards=PURE[:4]), dict(variant="race", shards=PURE[:4])], par=8,
                rule="A case makes buffers with all encoders in several goroutines, overwrites and appends to some of them, and compares the others with copies."),
    "C15": pure("A case is a random type written as a tuple and read back, with extra, missing, wrongly sized fields; compared with a reference."),
    "C16": pure("A case is a random storage request, its bytes are compared with a reference."),
    "C17": pure("A case is a result built by a reference writer, whole, malformed or truncated, read into random destinations."),
    "C18": clock("A case arms, stops and rearms timers of random durations in several goroutines.", assume=[SCHED]),
    "C19": conc("A case pushes requests of several senders through the queue of an endpoint, with and without overflow.", assume=[SCHED]),
    "C20": conc("A case is a random tree of contexts with requests, cancelled and expired at random moments.", assume=[SCHED]),
    "C21": conc("A case starts functions through contexts of random trees with waiters, racing with cancellation.", assume=[SCHED]),
    "C22": conc("A case collects or iterates a multi-request whose requests are answered in random ways at random moments.", assume=[SCHED]),
    "C23": conc("A case is a pool of random size with handlers which answer, panic, wait; stopped at random moments.", assume=[SCHED]),
    "C24": conc("A case is a balancer with fast, slow, finished and nested children, some added while it runs; stopped at random moments.", assume=[SCHED]),
    "C25": dict(jobs=[dict(variant="instrall-race", shards=CONC[:4]), dict(variant="plain", shards=CONC[:4])], par=6,
                rule="A case lets goroutines use types never seen before at the same moment; results are compared with those of a reference, races are reported by the detector."),
    "C27": clock("A case is a set of requests with timeouts stuck at some place; times and codes of answers are watched.", assume=[SCHED, WIRE]),
    "C28": conc("A case lets goroutines look addresses up in an automatic client while it is stopped; clients and servers they reach are compared.", assume=[SCHED, WIRE]),
    "C29": clock("A case is a stack of observers on requests which are answered and resent in random ways; the log of calls is compared with a model.", assume=[SCHED]),
    "C26": conc("A case lets peers send garbage and mutated frames to a server, or a scripted server answer a client with wrong, repeated, cut and garbled frames; all bytes sent are parsed by the harness, and whatever is passed or answered has to be in them.", assume=[SCHED, WIRE]),
    "C31": dict(jobs=[dict(variant="plain", shards=[(2, 0), (4, 0), (8, 0), (1, 0), (2, 0), (4, 0), (3, 0), (2, 0)])], par=6, assume=[WIRE, "Growth below some MB in three rounds of some thousand operations is not seen."],
                rule="A case repeats one kind of operation in rounds, everything of a round being over at its end; heap after collection, goroutines and descriptors after three more rounds are compared with those after the first."),
    "C30": dict(jobs=[dict(variant="race", shards=CONC[:4]), dict(variant="instr-race", shards=CONC[:6])], par=5, assume=[SCHED, "The race detector sees conflicting accesses which were made and were not ordered by anything in the observed execution."],
                rule="A case uses one part of the library from many goroutines which share nothing else; reports of the race detector with an access inside of the library are violations."),
}
