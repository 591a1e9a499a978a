"""Which specification decides which property, and how it is driven."""
import importlib
import random

from . import tlc


class Domain(object):
    jvms = 4
    assumptions = []

    def models(self, tier, prop):
        return []

    def record(self, script):
        return importlib.import_module("harness." + self.driver).record(script)

    def matches(self, known, script, trace, bad):
        return False


def sims(module, cfg, num, depth, seed, procs=4):
    """Random behaviours from several TLC simulations side by side."""
    import concurrent.futures
    with concurrent.futures.ThreadPoolExecutor(procs) as ex:
        parts = ex.map(lambda i: tlc.simulate(module, cfg, num // procs, depth,
                                              seed * 100 + i)[0], range(procs))
        out = []
        for p in parts:
            out += p
    return out


def widen(s, rnd, more=()):
    """More partitions, and topics, than the model of the environment knows."""
    for t in ("a", "b"):
        s["lead"].append([t, 2, rnd.randrange(1, 4)])
    for t in more:
        s["lead"] += [[t, p, rnd.randrange(1, 4)] for p in range(3)]
    if rnd.random() < 0.5:                 # most of them on one broker
        b = rnd.randrange(1, 4)
        s["lead"] = [[t, p, b if rnd.random() < 0.8 else old] for t, p, old in s["lead"]]
    topics = ["a", "b"] + list(more)
    for c in s["script"]:
        if c[0] in (("P",) if more else ("Q", "T+", "T-")) and rnd.random() < 0.4:
            c[1] = rnd.choice(topics)
        elif c[0] in "WZBLEO":
            c[1] = rnd.choice(topics + [c[1]] * 2)
            if rnd.random() < 0.5:
                c[2] = 2
        if more and c[0] == "P" and c[2] >= 0:
            c[2] = rnd.randrange(6)
        if more and c[0] == "R":
            c[2] = [["a", 9, rnd.choice([0, c[2][0][2], c[2][-1][2]])] for _ in range(rnd.randrange(2, 7))]


RETRIABLE = [2, 3, 5, 6, 7, 14, 15, 16, 19, 20]
FATAL = [-1, 1, 4, 8, 9, 10, 11, 12, 17, 18, 21, 22, 24, 28, 29, 30, 31, 35, 77]


def spread(code, rnd):
    """Another code of the same kind: the models know one or two of each."""
    if code == 0:
        return 0
    return rnd.choice(RETRIABLE if code in RETRIABLE else FATAL)


class ProducerDomain(Domain):
    name, driver, trace_module = "producer", "producer", "Producer_Trace"
    props = ["C01", "C02", "C03", "C04", "C05", "C12", "C25"]
    assumptions = [
        "brokers answer every produce request or lose its connection (required_acks=0 is not driven)",
        "the partitioner is deterministic and does not raise",
        "sequential order (C04) and exact due sets are checked when calls are awaited one after another",
    ]

    def models(self, tier, prop):
        out = [dict(module="Producer_MC", cfg="Producer_MC.cfg",
                    what="NothingFabricated NoResend Placed InOrder HeldBack Answered Settled Closed Silent")]
        if tier == "thorough":
            out.append(dict(module="Producer_MC", cfg="Producer_MC2.cfg", timeout=2400,
                            partial=True, what="the same, larger constants"))
        return out

    def scripts(self, tier, seed, prop):
        rnd = random.Random(seed)
        n = 800 if tier == "quick" else 12000
        out = sims("Producer_MC", "Producer_Gen.cfg", n, 140, seed)
        for s in out:
            s["codec"] = rnd.choice([0, 0, 1, 2])
            s["acks"] = rnd.choice([-1, -1, 1, 2])
            s["timeout"] = rnd.choice([500, 10, 30000])
            s["reverse"] = rnd.random() < 0.2
            s["moves"] = rnd.random() < 0.2
        conc = sims("ProducerConc_Gen", "ProducerConc_Gen.cfg", n // 2, 40, seed)
        for s in conc:
            s["conc"] = True
        for s in out + conc:
            if rnd.random() < 0.12:       # nothing plugged in; one partition per topic
                s["plain"] = True
                s["lead"] = [x for x in s["lead"] if x[1] == 0]
                s["script"] = [c[:2] + [-1] if c[0] == "P" else c for c in s["script"] if c[0] not in "AN"]
            elif rnd.random() < 0.2:
                widen(s, rnd, ["c"])
                s["batch"] = rnd.choice([s["batch"], 4, 7, 12])
                if rnd.random() < 0.6:      # a large flush answered with mixed codes
                    some = rnd.sample(["a", "b", "c"], rnd.randrange(1, 4))
                    at = rnd.randrange(len(s["script"]) // 2 + 1)
                    s["script"][at:at] = (
                        [["P", rnd.choice(some), rnd.randrange(6)] for _ in range(rnd.randrange(3, 11))] + [["F"]] +
                        [["R", rnd.randrange(1, 4), [["a", 9, rnd.choice([0, 0, 6, 5, 10])]
                                                     for _ in range(rnd.randrange(3, 9))]] for _ in range(3)])
            for cmd in s["script"]:
                if cmd[0] == "R":
                    cmd[2] = [[t, p, spread(c, rnd)] for t, p, c in cmd[2]]
        return out + conc


class ConnectionDomain(Domain):
    name, driver, trace_module = "connection", "connection", "Connection_Trace"
    props = ["C08", "C09"]
    assumptions = [
        "the broker frames its replies with the sizes it announces; a size that never arrives is waited for",
        "an answer unread when the client itself closes, or when the broker resets, may be lost",
    ]

    def models(self, tier, prop):
        return [dict(module="Connection_MC",
                     cfg="Connection_MC.cfg" if tier == "quick" else "Connection_MC2.cfg",
                     timeout=2400, partial=tier == "thorough",
                     what="OwnReply OneIdEach NoErrorWhileUp Delivered NoneHanging KeepsAnswer LateRefused")]

    def scripts(self, tier, seed, prop):
        rnd = random.Random(seed)
        out = sims("Connection_MC", "Connection_Gen.cfg",
                   1600 if tier == "quick" else 24000, 120, seed)
        for s in out:
            s["size"] = rnd.choice([0, 1, 2, 3, 5, 100, 101, 300000, 300001])
        return out


class ClusterDomain(Domain):
    name, driver, trace_module = "cluster", "cluster", "Cluster_Trace"
    props = ["C10", "C11"]
    assumptions = [
        "hosts answer, refuse, drop the connection or send nonsense; they do not stay silent for ever",
        "topic errors are unknown topic and replica not available",
        "what is known is compared exactly when no refresh overlapped another; overlapping ones must "
        "agree with one of the answers they got",
    ]

    def models(self, tier, prop):
        out = [dict(module="Cluster_MC", cfg="Cluster_MC.cfg",
                    what="ViewIsLast ConnsAreLast LeaderConnected NoneKept NoLeak InOrder UsesFirst BootClosed "
                         "NoBrokersIff Raises OkOnlyIfAnswered")]
        if tier == "thorough":
            out.append(dict(module="Cluster_MC", cfg="Cluster_MC2.cfg", timeout=1500,
                            partial=True, what="the same, larger constants"))
        return out

    def scripts(self, tier, seed, prop):
        rnd = random.Random(seed)
        boots, _ = tlc.generate("Cluster_Gen", "Cluster_Boot.cfg")
        out = boots + sims("Cluster_Gen", "Cluster_Gen.cfg",
                           1000 if tier == "quick" else 16000, 60, seed)
        for s in out:
            s["ports"], s["stale"] = rnd.randrange(2), rnd.random() < 0.4
            s["of"] = rnd.choice(["", "producer", "consumer"])
            s["slow"] = rnd.random() < 0.3
            s["moves"] = rnd.random() < 0.3
        return out


class ClientDomain(Domain):
    name, driver, trace_module = "client", "client", "Client_Trace"
    props = ["C12", "C25"]
    assumptions = [
        "handlers do not raise",
    ]

    def models(self, tier, prop):
        out = [dict(module="Client_MC", cfg="Client_MC.cfg",
                    what="Once Made Raises Returns UnhandledOnly Silent ClosedAll")]
        if tier == "thorough":
            out.append(dict(module="Client_MC", cfg="Client_MC2.cfg", timeout=1500,
                            partial=True, what="the same, larger constants"))
        return out

    def scripts(self, tier, seed, prop):
        return sims("Client_Gen", "Client_Gen.cfg", 1200 if tier == "quick" else 16000, 60, seed)


class ConsumerDomain(Domain):
    name, driver, trace_module = "consumer", "consumer", "Consumer_Trace"
    props = ["C12", "C13", "C14", "C15", "C25"]
    assumptions = [
        "one consume() call at a time per topic; calls on different topics may overlap",
        "a fetch is answered with the messages from its position on, or with the whole compressed "
        "set that holds it",
    ]

    def models(self, tier, prop):
        out = [dict(module="Consumer_MC", cfg="Consumer_MC.cfg",
                    what="NoGapsNoTwice NothingHidden RightPosition LookedUp Fetched")]
        if tier == "thorough":
            out.append(dict(module="Consumer_MC", cfg="Consumer_MC2.cfg", timeout=1500,
                            partial=True, what="the same, larger constants"))
        return out

    def scripts(self, tier, seed, prop):
        rnd = random.Random(seed)
        out = sims("Consumer_Gen", "Consumer_Gen.cfg", 1600 if tier == "quick" else 16000, 60, seed)
        for s in out:
            s["wait"] = rnd.choice([1000, 0, 7])
            s["min"] = rnd.choice([1, 0, 4096])
            s["maxb"] = rnd.choice([1024 * 1024, 100, 7, 3, 1])
            s["again"] = rnd.random() < 0.8
            s["big"], s["own"] = rnd.random() < 0.3, rnd.random() < 0.5
            s["reverse"] = rnd.random() < 0.3
            s["moves"] = rnd.random() < 0.2
            if rnd.random() < 0.2:
                widen(s, rnd)
            for cmd in s["script"]:
                if cmd[0] == "R":
                    cmd[2] = [c if c in (0, 1, -100) else spread(c, rnd) for c in cmd[2]]
        return out


class AllocationDomain(Domain):
    name, driver, trace_module = "allocation", "allocation", "Allocation_Trace"
    props = ["C19", "C20", "C21"]
    assumptions = [
        "a session is not lost while its holder is inside the lock (ZooKeeper locks cannot fence that)",
    ]

    def models(self, tier, prop):
        what = ("NothingVanishes NothingSurvives NothingInvented Complete Disjoint Balanced "
                "UpToDate Sessions")
        out = [dict(module="Allocation_MC", cfg="Allocation_MC1.cfg", what=what + " (one process, lost)"),
               dict(module="Allocation_MC", cfg="Allocation_MC.cfg", what=what)]
        if tier == "thorough":
            out.append(dict(module="Allocation_MC", cfg="Allocation_MC2.cfg", timeout=1500,
                            partial=True, what="the same, larger constants"))
        return out

    def scripts(self, tier, seed, prop):
        return sims("Allocation_Gen", "Allocation_Gen.cfg", 1600 if tier == "quick" else 16000, 60, seed)


class WireDomain(Domain):
    name, driver, trace_module = "wire", "codec", "Wire_Trace"
    props = ["C06", "C07", "C22", "C23", "C24"]
    jvms = 8
    assumptions = [
        "python's gzip and the snappy library itself are the reference decompressors",
    ]

    def models(self, tier, prop):
        what = "RoundTrip NoPrefix Cuts Checksum Utf8Only TextBack Unwrapped"
        return [dict(module="Wire_MC", cfg="Wire_MC.cfg" if tier == "quick" else "Wire_MC2.cfg",
                     timeout=900, what=what)]

    def scripts(self, tier, seed, prop):
        n = dict(C22=480, C23=480, C06=480, C07=240, C24=480)[prop]
        return sims("Wire_Gen", "Wire_Gen_%s.cfg" % prop, n if tier == "quick" else 12 * n, 60, seed, 8)


class GroupDomain(Domain):
    name, driver, trace_module = "group", "group", "Group_Trace"
    props = ["C12", "C13", "C15", "C16", "C17", "C18", "C25"]
    assumptions = [
        "every partition of the group has a committed offset",
        "rebalances reach the consumer between steps of its own thread",
        "coordinator lookups, offset lookups and commits do not fail for ever",
    ]

    def models(self, tier, prop):
        what = "NotAhead ResumesThere OnlyOwned Coordinator Completed NothingLost LeavesFirst"
        out = [dict(module="Group_MC", cfg="Group_MC.cfg", what=what + " (autocommit)"),
               dict(module="Group_MC", cfg="Group_MC1.cfg", what=what + " (two calls)")]
        if tier == "thorough":
            out += [dict(module="Group_MC", cfg="Group_MC%d.cfg" % n, timeout=1500,
                         partial=True, what="the same, larger constants") for n in (2, 3, 4)]
        return out

    def scripts(self, tier, seed, prop):
        rnd = random.Random(seed)
        out = sims("Group_Gen", "Group_Gen.cfg", 1600 if tier == "quick" else 16000, 60, seed)
        for s in out:
            s["wait"] = rnd.choice([1000, 0, 7])
            s["min"] = rnd.choice([1, 0, 4096])
            s["maxb"] = rnd.choice([1024 * 1024, 100, 7, 3, 1])
            s["big"] = rnd.random() < 0.3
            s["reverse"] = rnd.random() < 0.3
            s["moves"] = rnd.random() < 0.2
            s["custom"] = rnd.random() < 0.3
            s["again"] = rnd.random() < 0.8
            s["com"] = [rnd.randrange(4) for _ in range(4)]
            s["early"] = [c for c in s["early"] if c[0] not in "QYC"]
            if rnd.random() < 0.2:
                widen(s, rnd)
            s["absent"] = []
            if rnd.random() < 0.2:      # brokers that appear while the coordinator is looked for
                s["absent"] = rnd.sample([1, 2, 3], rnd.choice([0, 1, 2, 2]))
                some = [["RU", "group_coordinator", [rnd.choice([15, 15, 6, 14, 16])]]
                        for _ in range(rnd.randrange(12))]
                for b in s["absent"]:
                    if rnd.random() < 0.7:
                        some.insert(rnd.randrange(len(some) + 1), ["V", b])
                s["early"] = some + s["early"]
            for cmd in s["script"]:
                if cmd[0] in ("R", "RU") and rnd.random() < 0.5:
                    cmd[2] = [c if c in (0, 1, 12, 14, 15, 16) else spread(c, rnd) for c in cmd[2]]
        return out


DOMAINS = {}
for d in (ProducerDomain, ConnectionDomain, ClusterDomain, ClientDomain, ConsumerDomain, AllocationDomain, WireDomain,
          GroupDomain):
    DOMAINS[d.name] = d()
