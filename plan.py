"""What each check runs: model-checking configurations, behaviours, traces."""


def T(tier, q, t):
    return q if tier == "quick" else t


FL_TREE = ["mem", "level", "levelprefix", "memprefix"]


def tree(tier, ops, only, n, depth=30, keys=None, draw=True, maxlevels=140, shards=None, flavours=FL_TREE, exhaustive=False):
    keys = keys or list(range(1, 57))
    return {"spec": "MerkleTree", "module": "tree", "flavours": flavours, "only": only,
            "num": n, "depth": depth * 12, "shards": shards or T(tier, 6, 16),
            "denv": {"MAXLEVELS": str(maxlevels)}, "exhaustive": exhaustive,
            "params": {"keys": keys, "vals": 2, "maxLevels": maxlevels, "ops": ops, "depth": depth, "rec": True, "draw": draw}}


def tree_mc(tier, ops, inv, keys=None, maxlevels=4, vals=2):
    return {"spec": "MerkleTree", "inv": inv,
            "params": {"keys": keys or T(tier, [1, 2, 25, 26], [1, 2, 25, 26, 27]), "vals": vals, "maxLevels": maxlevels,
                       "ops": ops, "depth": 0, "rec": False, "draw": False}}


TREE_INV = ["TypeOK", "Durable", "Bounded", "HistoryClosed", "Injective"]
PROOF_INV = ["Complete", "Sound"]
SMALLML = 6      # level limit that the dense keys 25.. exceed


def c01(t):
    sig = ["tree."]
    return {"mc": [tree_mc(t, ["add", "import", "reopen"], TREE_INV)],
            "sim": [tree(t, ["addnew"] * 6 + ["add", "addbad", "get"], sig, T(t, 30, 400)),
                    *[tree(t, ["add"] * 6 + ["addnew", "get", "reopen"], sig, T(t, 8, 100), keys=list(range(25, 57)), maxlevels=ml, shards=T(t, 2, 4))
                      for ml in (4, 5, SMALLML, 19, 20, 21)],
                    tree(t, ["add"] * 5 + ["get"], sig, T(t, 20, 200), keys=[1, 2, 3, 4, 25, 26, 5, 6], shards=T(t, 3, 8)),
                    tree(t, ["deep", "get", "addnew"], sig, T(t, 6, 60), depth=12, shards=2)],
            "need": ["add", "probe", "deep", "addbad"]}


def c02(t):
    sig = ["tree.", "import.root"]
    return {"mc": [tree_mc(t, ["add", "import", "reopen"], TREE_INV, maxlevels=T(t, 8, 10))],
            "sim": [tree(t, ["addnew"] * 8 + ["import", "getat", "get"], sig, T(t, 20, 300)),
                    tree(t, ["addnew"] * 4 + ["add", "import"], sig, T(t, 15, 200), keys=[1, 2, 3, 25, 26, 27], depth=14)],
            "need": ["add", "probe", "import"]}


def c03(t):
    sig = ["tree.", "proof."]
    return {"mc": [tree_mc(t, ["add"], TREE_INV + PROOF_INV, keys=T(t, [25, 26, 27], [25, 26, 41, 1]), maxlevels=10)],
            "sim": [tree(t, ["addnew"] * 5 + ["get", "getat", "forge", "forge"], sig, T(t, 20, 300)),
                    tree(t, ["addnew"] + ["synth"] * 6 + ["decode", "deep"], sig, T(t, 12, 150), depth=14)],
            "need": ["forge", "synth", "decode", "deep", "probe"]}


def c04(t):
    sig = ["tree.", "proof."]
    return {"mc": [tree_mc(t, ["add", "reopen"], TREE_INV)],
            "sim": [tree(t, ["addnew"] * 5 + ["getat", "getat", "snap", "snap", "unknown", "get", "reopen"], sig, T(t, 24, 350))],
            "need": ["probe", "probesnap", "addsnap", "snap", "unknown"]}


def c05(t):
    sig = ["tree."]
    return {"mc": [tree_mc(t, ["add", "reopen", "fault", "crash"], TREE_INV)],
            "sim": [tree(t, ["addnew"] * 3 + ["fault", "fault", "fault", "crash", "crash", "reopen", "get", "getat"], sig, T(t, 24, 350),
                         flavours=["mem", "level", "levelprefix", "memprefix"])],
            "need": ["addfault", "addcrash", "openfault", "reopen", "faults_injected", "crashes_injected"]}


def c06(t):
    sig = ["tree.", "dump.", "import."]
    return {"mc": [tree_mc(t, ["add", "import", "reopen"], TREE_INV)],
            "sim": [tree(t, ["addnew"] * 6 + ["import", "import", "importbad", "reopen", "get"], sig, T(t, 20, 300))],
            "need": ["import", "importbad", "tree.dumpfault", "tree.importfault"]}


def kv(tier, ops, n, depth=40, bytes_=(0, 97, 255), maxlen=2, vals=4, flavours=("mem", "level"), shards=4):
    return {"spec": "KV", "module": "kv", "flavours": list(flavours), "only": ["kv."], "num": n, "depth": depth * 12, "shards": shards,
            "params": {"bytes": list(bytes_), "maxLen": maxlen, "vals": vals, "handles": 6, "txs": 3, "alltxs": 1000, "ops": ops,
                       "depth": depth, "rec": True, "draw": True}}


def c07(t):
    mc = [{"spec": "KV", "inv": ["OnlyCommitted", "Isolated", "Confined", "Sorted"], "props": ["AtomicCommit"], "workers": 4,
           "params": {"bytes": [0, 255], "maxLen": 1, "vals": 1, "handles": T(t, 2, 3), "txs": 2, "alltxs": T(t, 2, 2),
                      "ops": ["prefix", "newtx", "put", "commit", "close"] + T(t, [], ["addtx"]), "depth": 0, "rec": False, "draw": False}}]
    mix = ["prefix", "newtx", "put", "put", "put", "put", "put", "commit", "get", "txget", "txget", "iter", "iter", "close", "addtx", "info"]
    return {"mc": mc,
            "sim": [kv(t, mix + ["reopen"], T(t, 150, 3000)),
                    kv(t, mix, T(t, 120, 2000), bytes_=(97, 98), maxlen=1, vals=3),
                    kv(t, mix, T(t, 100, 2000), bytes_=(0, 97, 254, 255), maxlen=3, depth=80),
                    # few keys, several open transactions: reads and writes meet
                    kv(t, ["newtx", "newtx", "put", "put", "put", "txget", "txget", "txget", "commit", "commit", "close", "addtx", "get", "reopen"],
                       T(t, 60, 1500), bytes_=(97,), maxlen=1, depth=60)],
            "need": ["put", "commit", "close", "addtx", "iter", "txget", "get", "reopen", "info"]}


def c08(t):
    def job(n, keys, lists, depth, maxlen, mix):
        return {"spec": "StoreList", "module": "storelist", "flavours": ["mem", "level", "memprefix", "levelprefix"],
                "only": ["list.", "value.", "json.", "storelist."],
                "num": n, "depth": depth * 12, "shards": 4,
                "params": {"lists": lists, "counters": 2, "keys": keys, "vals": 3, "cvals": 9, "maxLen": maxlen, "ops": mix,
                           "bulks": [1, 70, 300, 66000], "maxBig": 140000,
                           "depth": depth, "rec": True, "draw": True}}
    mix = ["begin", "begin", "init", "append", "append", "append", "set", "json", "commit", "commit", "abort", "reopen", "appendbad"]
    return {"mc": [{"spec": "StoreList", "inv": ["Readable", "NoTrace"], "props": ["AppendOnly"], "workers": 4,
                    "params": {"lists": 2, "counters": 1, "keys": 2, "vals": T(t, 1, 2), "cvals": 1, "maxLen": T(t, 2, 2),
                               "ops": ["begin", "init", "append", "set", "commit", "abort", "reopen"], "depth": 0, "rec": False, "draw": False}}],
            "sim": [job(T(t, 60, 1500), 6, 2, 30, 50, mix),
                    job(T(t, 15, 300), 7, 2, 120, 400, ["begin", "init", "append", "append", "append", "append", "append", "append", "append", "commit"]),
                    job(T(t, 3, 40), 3, 1, 24, 10, ["begin", "begin", "bulk", "bulk", "bulk", "commit", "commit", "abort", "reopen", "init", "append"])],
            "need": ["append", "set", "commit", "abort", "reopen", "json", "init", "bulk", "long"]}


PLANS = {"C01": c01, "C02": c02, "C03": c03, "C04": c04, "C05": c05, "C06": c06, "C07": c07, "C08": c08}


def plan(prop, tier):
    return PLANS[prop](tier)


TECH_DEFAULT = ("explicit TLA+ specification; TLC checks its invariants exhaustively at small constants and generates "
                "behaviours with the specified observations, which are replayed step by step into the real code")
NOTE_DEFAULT = "exhaustive for the specification at small constants; sampled behaviours for the conformance of the code"
TECHNIQUE, NOTE = {}, {}


def c09(t):
    kinds = ["basic", "babyjub", "otheriden", "leafroot", "leafrev", "generic", "generic", "generic", "generic", "generic"]
    return {"mc": [{"spec": "Claims", "inv": ["Disjoint", "InField", "Placed", "RoundTrip"], "props": ["Frame"], "workers": 4,
                    "params": {"ids": T(t, 1, 2), "kinds": kinds, "depth": 0, "rec": False, "draw": False}}],
            "sim": [{"spec": "Claims", "module": "claims", "flavours": [""], "only": ["claim.", "claims."], "num": T(t, 300, 6000), "depth": 60, "shards": 4,
                     "params": {"ids": 7, "kinds": kinds, "depth": 12, "rec": True, "draw": True}}],
            "need": ["build", "set", "through", "any", "badmeta"]}


PLANS["C09"] = c09


def c10(t):
    ops = ["make", "given", "given", "given", "given", "text", "state", "state", "genesis", "genesis"]
    small = {"depth": 0, "rec": False, "draw": False, "ops": ops}
    return {"mc": [{"spec": "Ident", "inv": ["Accepts", "Detects", "Lengths"], "workers": 4,
                    "params": {"base": T(t, 4, 5), "tlen": 1, "glen": T(t, 3, 4), "roots": 0, "maxSts": 0, "keys": 1, "extras": 1, "maxEx": 0, "maxIds": 0, **small}},
                   {"spec": "Ident", "inv": ["Commits"], "workers": 4,
                    "params": {"base": 1, "tlen": 1, "glen": 1, "roots": 0, "maxSts": 0, "keys": 2, "extras": T(t, 2, 3), "maxEx": 2, "maxIds": T(t, 3, 3), **small}}],
            "sim": [{"spec": "Ident", "module": "ident", "flavours": [""], "only": ["ident."], "num": T(t, 150, 4000), "depth": 420, "shards": 4,
                     "params": {"base": 256, "tlen": 2, "glen": 27, "roots": 4, "maxSts": 12, "keys": 4, "extras": 12, "maxEx": 5, "maxIds": 12,
                                "depth": 35, "rec": True, "draw": True, "ops": ["make"] + ops}}],
            "need": ["make", "given", "text", "state", "genesis"]}


PLANS["C10"] = c10


FAR = 10 ** 9  # seconds: an expiration beyond every behaviour
FL_ID = ["mem-local", "level-http", "memprefix-http", "levelprefix-local"]
LIFE = ["issue"] * 8 + ["revoke"] * 4 + ["publish"] * 4 + ["sync"] * 4 + ["mine"] * 3 + ["blocks"] * 3 + ["tick"] + ["load"] * 2


def iden(t, ops, n, depth=60, faults=0, every=3, only=False, issuers=2, contents=9, shards=8, start=0, exp=(0, 0, 20, 0, 60, FAR, 8, 0), maxgen=2, flavours=FL_ID, confirm=2):
    return {"spec": "Identity", "module": "identity", "flavours": flavours, "only": ["id.", "identity."], "num": n, "depth": depth * 40, "shards": shards,
            "params": {"issuers": issuers, "contents": contents, "confirm": confirm, "rec": True, "draw": True, "exp": list(exp), "ops": ["create"] + ops, "start": start,
                       "faults": faults, "faultEvery": every, "maxGen": maxgen, "only": only, "maxClaims": 99, "maxNonce": 99, "maxRevs": 99, "maxCreds": 40, "depth": depth}}


def iden_mc(t, ops, inv, props=(), faults=1, fair=False, **kw):
    p = {"issuers": 1, "contents": 3, "confirm": 1, "rec": False, "draw": False, "exp": [0], "ops": ["create"] + ops, "start": 0,
         "faults": faults, "faultEvery": 1, "maxGen": 0, "only": False, "maxClaims": 3, "maxNonce": 3, "maxRevs": 1, "maxCreds": 0, "depth": 0}
    p.update(kw)
    return {"spec": "Identity", "inv": list(inv), "props": list(props), "fair": fair, "workers": 6, "params": p}


STEPS = ["issue", "revoke", "publish", "sync", "load", "mine", "blocks"]


def noncegen(t, n):
    return {"spec": "NonceGen", "module": "noncegen", "flavours": FL_TREE, "only": ["id.noncegen", "noncegen."], "num": n, "depth": 600, "shards": 2,
            "params": {"gens": 3, "max": 10 ** 9, "far": 9 * 10 ** 8, "near": 12, "burst": 6, "depth": 50, "rec": True, "draw": True,
                       "ops": ["begin"] * 4 + ["init"] + ["next"] * 6 + ["commit"] * 3 + ["abort", "reopen", "jump"]}}


NONCEGEN_MC = {"spec": "NonceGen", "inv": ["Behind", "Ahead", "Below"], "props": ["Kept"], "workers": 2,
               "params": {"gens": 2, "max": 6, "far": 3, "near": 2, "burst": 2, "depth": 0, "rec": False, "draw": False,
                          "ops": ["begin", "init", "next", "commit", "abort", "reopen", "jump"]}}


def c11(t):
    mix = ["issue"] * 10 + ["revoke"] * 4 + ["publish", "mine", "blocks", "sync", "load", "load"]
    return {"mc": [iden_mc(t, ["issue", "revoke", "load", "publish"], ["UniqueNonces"], ["Permanent"], faults=T(t, 2, 3), maxClaims=T(t, 4, 5), maxNonce=T(t, 5, 6), maxRevs=2, contents=4), NONCEGEN_MC],
            "sim": [noncegen(t, T(t, 100, 1500)), iden(t, mix, T(t, 12, 250), depth=60, faults=8, every=4, contents=60),
                    iden(t, mix, T(t, 12, 250), depth=60, faults=4, every=10, contents=7, issuers=1),
                    iden(t, mix, T(t, 5, 100), depth=150, faults=0, contents=99, shards=4, maxgen=6)],
            "need": ["issue", "revoke", "create", "load", "next", "jump", "refused", "parallel", "commit", "abort", "reopen"]}


PLANS["C11"] = c11


def c12(t):
    return {"mc": [iden_mc(t, STEPS, ["SingleFlight", "SentIsPending", "Ordered", "Confirmed", "Kept"], ["Starts"], faults=T(t, 2, 3)),
                   iden_mc(t, STEPS, [], ["Publishable"], faults=T(t, 1, 2), fair=True, maxClaims=T(t, 2, 3), maxNonce=T(t, 2, 3))],
            "sim": [iden(t, LIFE + ["settle"], T(t, 15, 300), depth=80, faults=6, every=8),
                    iden(t, LIFE, T(t, 15, 300), depth=60, faults=3, every=12, issuers=1),
                    iden(t, LIFE, T(t, 10, 200), depth=120, faults=0, contents=40),
                    iden(t, LIFE, T(t, 3, 60), depth=60, faults=3, every=12, issuers=1, shards=2, flavours=["mem-zero-http", "level-zero-local"], confirm=0),
                    iden(t, LIFE, T(t, 3, 60), depth=60, faults=0, issuers=1, shards=2, flavours=["mem-never-local", "level-never-http"], confirm=10 ** 6)],
            "need": ["publish", "sync", "issue", "settled"]}


PLANS["C12"] = c12


def c13(t):
    mix = LIFE + ["cred"] * 10 + ["verE"] * 4
    return {"mc": [iden_mc(t, STEPS + ["cred", "verE"], ["CredFact", "Ordered", "Kept"], faults=T(t, 1, 2), maxCreds=T(t, 1, 2))],
            "sim": [iden(t, mix, T(t, 15, 300), depth=80),
                    iden(t, mix, T(t, 10, 200), depth=150, issuers=3, contents=30),
                    iden(t, mix + ["settle"], T(t, 8, 150), depth=80, faults=4, every=8)],
            "need": ["cred", "verE", "publish", "sync"]}


PLANS["C13"] = c13


def c14(t):
    mix = LIFE + ["revoke"] * 3 + ["cred"] * 6 + ["val"] * 10 + ["verV"] * 10 + ["tick"] * 2
    return {"mc": [iden_mc(t, ["issue", "revoke", "publish", "sync", "load", "mine", "blocks", "cred", "val"], ["CredFact", "ValFact"], ["Permanent"], faults=T(t, 0, 1), maxCreds=T(t, 1, 2))],
            "sim": [iden(t, mix, T(t, 15, 300), depth=100),
                    iden(t, mix, T(t, 10, 200), depth=160, issuers=1, contents=12, exp=(FAR, 12, 20, 30, 0, 60, FAR, 15)),
                    iden(t, mix + ["settle"], T(t, 6, 150), depth=90, faults=4, every=8)],
            "need": ["cred", "val", "verV", "revoke"]}


PLANS["C14"] = c14


def c15(t):
    mix = LIFE + ["revoke"] * 2 + ["cred"] * 8 + ["val"] * 8 + ["mixE"] * 12 + ["mixV"] * 16 + ["hurt"] * 16
    return {"mc": [iden_mc(t, STEPS + ["cred", "val"], ["CredFact", "ValFact"], faults=0, maxCreds=T(t, 1, 2))],
            "sim": [iden(t, mix, T(t, 15, 300), depth=120, issuers=3),
                    iden(t, mix, T(t, 10, 200), depth=160, issuers=2, contents=5)],
            "need": ["cred", "val", "mixE", "mixV", "hurt"]}


PLANS["C15"] = c15


def c16(t):
    mix = LIFE + ["load"] * 10 + ["stop"] * 2 + ["cred"] * 4 + ["own"]
    return {"mc": [iden_mc(t, STEPS, ["UniqueNonces", "SentIsPending", "Ordered", "Confirmed", "Kept"], ["Permanent", "Starts"], faults=T(t, 2, 3))],
            "sim": [iden(t, mix, T(t, 15, 300), depth=80, faults=8, every=4),
                    iden(t, mix + ["settle"], T(t, 12, 250), depth=100, faults=5, every=6, only=True, issuers=3),
                    iden(t, mix, T(t, 8, 150), depth=120, faults=0),
                    # configurations that are not the default ones
                    iden(t, mix, T(t, 4, 60), depth=60, faults=2, every=8, issuers=1, shards=2, flavours=["mem-zero-http", "level-zero-local"], confirm=0),
                    iden(t, mix, T(t, 3, 40), depth=60, faults=0, issuers=1, shards=2, flavours=["mem-never-local", "level-never-http"], confirm=10 ** 6)],
            "need": ["load", "stop", "create", "own", "cred", "settled"]}


PLANS["C16"] = c16


def c25(t):
    mix = LIFE + ["own"] * 8 + ["cred"] * 2 + ["load"] * 4
    return {"mc": [iden_mc(t, STEPS, ["OnlyGenesis"], ["OnlyForever"], faults=1, only=True, maxClaims=T(t, 2, 3), issuers=T(t, 1, 1), maxGen=1)],
            "sim": [iden(t, mix, T(t, 20, 400), depth=50, only=True, issuers=4, maxgen=9, contents=40),
                    iden(t, mix, T(t, 10, 200), depth=30, only=True, issuers=4, maxgen=40, contents=60, faults=3, every=3)],
            "need": ["create", "own", "issue", "publish", "load"]}


PLANS["C25"] = c25


def c26(t):
    mix = LIFE + ["cred"] * 8 + ["zk"] * 12 + ["zkver"] * 16 + ["tick"]
    return {"mc": [iden_mc(t, STEPS + ["cred", "zk", "zkver"], ["CredFact", "Ordered"], faults=0, maxCreds=T(t, 1, 1))],
            "sim": [iden(t, mix, T(t, 15, 300), depth=100),
                    iden(t, mix, T(t, 10, 200), depth=140, issuers=3, contents=30)],
            "need": ["cred", "zk", "zkver"]}


PLANS["C26"] = c26


FL_STORE = ["mem", "level", "memprefix", "levelprefix"]


def off(t, ops, n, only, caps=(1, 2, 3, 4, 5, 6, 7), depth=40, bursts=(1, 3, 5), faults=5, shards=4, nonces=12, maxhist=60):
    return {"spec": "OffChain", "module": "offchain", "flavours": FL_STORE, "only": only, "num": n, "depth": depth * 12, "shards": shards,
            "params": {"ids": 2, "caps": list(caps), "nonces": nonces, "maxHist": maxhist, "faults": faults, "bursts": list(bursts), "ops": ops,
                       "depth": depth, "rec": True, "draw": True}}


def off_mc(t, ops, inv, props=(), **kw):
    p = {"ids": 1, "caps": [1, 2, 3, 4, 5], "nonces": 1, "maxHist": T(t, 7, 9), "faults": 1, "bursts": [1, 2, 3], "ops": ops, "depth": 0, "rec": False, "draw": False}
    p.update(kw)
    return {"spec": "OffChain", "inv": list(inv), "props": list(props), "workers": 4, "params": p}


def c17(t):
    sig = ["off.publish", "off.load", "off.found", "off.notfound", "off.data", "off.get", "off.panic", "offchain."]
    mix = ["snap"] * 3 + ["publish"] * 5 + ["burst", "reload", "reload", "get", "get", "get", "all"]
    return {"mc": [off_mc(t, ["snap", "publish", "burst", "reload"], ["ServesRecent", "Placed", "Distinct"], ["Gentle", "Frozen"])],
            "sim": [off(t, mix, T(t, 40, 600), sig, depth=50),
                    off(t, mix, T(t, 30, 500), sig, caps=(2, 3, 8, 16), depth=60, faults=0),
                    off(t, ["burst", "all", "reload", "get", "publish", "burst", "burst", "all"], T(t, 3, 30), sig, caps=(100, 128, 200, 255), bursts=(60, 130), depth=9, maxhist=420, shards=T(t, 2, 8))],
            "need": ["publish", "burst", "reload", "get", "all", "notfound", "faults_commit", "faults_crash-after"]}


PLANS["C17"] = c17


def c18(t):
    sig = ["off.", "offchain."]
    mix = ["snap"] * 3 + ["publish"] * 3 + ["fetch"] * 12 + ["local", "again", "reload"]
    return {"mc": [off_mc(t, ["snap", "publish"], ["OnlyTheRequested", "Distinct"], ["Frozen"], caps=[1], ids=1, maxHist=T(t, 4, 5), faults=0)],
            "sim": [off(t, mix, T(t, 40, 600), sig, caps=(3, 4, 8), depth=60, faults=1, shards=8),
                    off(t, mix, T(t, 20, 300), sig, caps=(4, 8), depth=60, faults=0, nonces=3, shards=8)],
            "need": ["fetch", "local", "again", "rejected", "accepted", "alt_graft", "alt_fold", "alt_mix", "alt_drop", "alt_node", "alt_status", "alt_body"]}


PLANS["C18"] = c18


def nonce(t, ops, n, names=4, depth=60, deltas=(0, 0, 1, 2, 3, 5, 8, -1), shards=4):
    return {"spec": "Nonce", "module": "nonce", "flavours": [""], "only": ["nonce."], "num": n, "depth": depth * 12, "shards": shards, "clock": True,
            "params": {"names": names, "auxs": 3, "deltas": list(deltas), "maxTime": 10 ** 6, "maxId": 10 ** 6, "ops": ops, "depth": depth, "rec": True, "draw": True}}


def c19(t):
    mix = ["add"] * 5 + ["aux", "search", "search", "consume", "consume", "clean", "tick", "tick", "readd", "new"]
    return {"mc": [{"spec": "Nonce", "inv": ["Answers", "Data", "Queued"], "props": ["Stays", "Once"], "workers": 4,
                    "params": {"names": T(t, 2, 2), "auxs": 1, "deltas": [0, 1, 2], "maxTime": T(t, 3, 4), "maxId": T(t, 4, 5),
                               "ops": ["add", "readd", "aux", "consume", "clean", "tick", "many"], "depth": 0, "rec": False, "draw": False}}],
            "sim": [nonce(t, mix, T(t, 300, 6000)), nonce(t, mix + ["many", "many"], T(t, 200, 4000), names=2, depth=80),
                    nonce(t, mix + ["many"], T(t, 60, 1500), names=40, depth=300, deltas=(0, 1, 5, 10, 30, 60, 2, 7, 100))],
            "need": ["add", "readd", "aux", "search", "consume", "clean", "tick", "new", "many", "many_new", "found", "refused"]}


PLANS["C19"] = c19


def ks(t, ops, n, stors=(1, 1, 1, 2, 2), fl=("file", "filewrap"), shared=True, depth=60, faults=4, shards=4, imported=5, created=30, passes=8):
    return {"spec": "KeyStore", "module": "keystore", "flavours": list(fl), "only": ["ks.", "keystore."], "num": n, "depth": depth * 12, "shards": shards,
            "denv": {"STORS": ",".join(map(str, stors))},
            "params": {"files": max(stors), "stors": list(stors), "imported": imported, "created": created, "passes": passes, "maxHandles": 10 ** 6, "shared": shared,
                       "faults": faults, "budget": 0, "ops": ops, "depth": depth, "rec": True, "draw": True}}


def c20(t):
    mix = ["open"] * 6 + ["close"] * 4 + ["new", "import", "import", "import", "unlock", "unlock", "unlock", "near", "export", "sign", "keys", "stale", "gc"]
    own = ["open"] * 10 + ["close"] * 8 + ["import", "import", "gc", "gc", "keys", "stale", "proc", "junk"]
    return {"mc": [{"spec": "KeyStore", "inv": ["OneOwner", "LockIsOwner", "UnlockedAreStored", "ClosedAreLocked"], "props": ["NothingLost", "OnlyOwners"], "workers": 4,
                    "params": {"files": 1, "stors": T(t, [1, 1], [1, 1, 1]), "imported": 1, "created": 1, "passes": 2, "maxHandles": T(t, 3, 4), "shared": True, "faults": 0,
                               "budget": 1, "ops": ["open", "close", "new", "import", "unlock", "stale"], "depth": 0, "rec": False, "draw": False}},
                   {"spec": "KeyStore", "inv": ["OneOwner", "LockIsOwner", "ClosedAreLocked"], "props": ["NothingLost"], "workers": 4,
                    "params": {"files": 2, "stors": T(t, [1, 1, 2], [1, 1, 1, 2, 2]), "imported": 1, "created": 0, "passes": 1, "maxHandles": T(t, 4, 5), "shared": True, "faults": 0,
                               "budget": 1, "ops": ["open", "close", "import"], "depth": 0, "rec": False, "draw": False}}],
            "sim": [ks(t, mix + ["enc"], T(t, 100, 1500)), ks(t, own, T(t, 60, 900), stors=(1, 1, 1), depth=80),
                    ks(t, mix + ["proc", "proc", "proc", "junk"], T(t, 40, 600), depth=50, fl=("file",)),
                    ks(t, mix + ["enc"], T(t, 60, 900), stors=(1, 2), fl=("mem",), shared=False),
                    ks(t, ["open", "open", "import", "import", "nul"], T(t, 40, 100), stors=(1, 2), fl=("mem",), shared=False, depth=10)],
            "need": ["open", "close", "new", "import", "unlock", "export", "sign", "keys", "gc", "junk", "enc", "proctry", "procimport", "proccrash",
                     "contended", "writefail", "wrongpass", "interrupted", "readfail"] + ["near_" + x for x in "space front case cut double bit ff newline empty nul".split()]}


PLANS["C20"] = c20


SIGN_KINDS = ["elem", "raw", "dated", "iden", "idendate", "binary", "state", "elems", "eth", "ethdate"]


def sign(t, ops, n, kinds=SIGN_KINDS, depth=60, shards=4, msgs=26, only=("sign.",)):
    return {"spec": "Sign", "module": "sign", "flavours": [""], "only": list(only), "num": n, "depth": depth * 12, "shards": shards, "clock": True,
            "params": {"kinds": list(kinds), "keys": 4, "msgs": msgs, "prefixes": 7, "layouts": 4, "alters": 20, "maxSigs": 10 ** 6, "strlen": 0,
                       "ops": ops, "depth": depth, "rec": True, "draw": True}}


def c21(t):
    mix = ["sign"] * 4 + ["verify"] * 6 + ["alter"] * 6 + ["swap"] * 2 + ["outside", "away", "trip", "tick"]
    return {"mc": [{"spec": "Sign", "inv": ["Sound", "Exact", "Complete"], "workers": 1,
                    "params": {"kinds": ["raw"], "keys": 1, "msgs": 1, "prefixes": 1, "layouts": 1, "alters": 1, "maxSigs": 0, "strlen": T(t, 2, 3),
                               "ops": [], "depth": 0, "rec": False, "draw": False}}],
            "sim": [sign(t, mix, T(t, 60, 900)), sign(t, mix, T(t, 40, 600), kinds=["dated", "binary", "idendate", "ethdate"], shards=4),
                    sign(t, ["sign", "sign", "pad"], T(t, 60, 200), kinds=["dated", "binary", "raw", "iden"], depth=6, shards=1, msgs=40),
                    sign(t, ["sign", "sign", "shift"], T(t, 60, 200), kinds=["dated", "binary"], depth=6, shards=1, msgs=40)],
            "need": ["sign", "verify", "outside", "trip", "tick", "ticking", "padded", "shifted", "altered", "accepted", "rejected"] + ["kind_" + k for k in SIGN_KINDS]}


PLANS["C21"] = c21


def zkf(t, ops, n, depth=50, shards=4):
    return {"spec": "Zk", "module": "zkfiles", "flavours": [""], "only": ["zk.", "zkfiles."], "num": n, "depth": depth * 14, "shards": shards,
            "params": {"maxZ": 10 ** 6, "ops": ops, "depth": depth, "rec": True, "draw": True}}


def fetch_mc(t, procs, budget, inodes, **kw):
    return dict({"spec": "ZkFetch", "inv": ["Whole", "NoMismatch", "ErrBudget", "Inside"], "workers": 4,
                 "params": {"procs": procs, "remove": False, "budget": budget, "inodes": inodes}}, **kw)


def zkmc(z, ops):
    return {"spec": "Zk", "inv": ["LoadedRight", "LoadedChecked"], "props": ["Appears"], "workers": 4, "timeout": 600,
            "params": {"maxZ": z, "ops": ops, "depth": 0, "rec": False, "draw": False}}


def c22(t):
    mix = ["new"] * 2 + ["serve"] * 5 + ["touch"] * 6 + ["get"] * 8 + ["load"] * 3 + ["download"] * 3 + ["loadall", "downloadall", "insecure", "hashes"]
    return {"mc": [fetch_mc(t, T(t, 3, 5), 2, T(t, 8, 10)), fetch_mc(t, 2, 1, 6, fair=True, inv=["Whole"], props=["Ends"]),
                   zkmc(1, ["new", "touch", "get", "download", "loadall", "serve"])] + T(t, [], [zkmc(2, ["new", "touch", "get", "download"]), zkmc(1, ["new", "touch", "get", "load", "download", "loadall", "downloadall", "serve", "insecure"])]),
            "sim": [zkf(t, mix, T(t, 250, 3000)), zkf(t, mix + ["crash"] * 3, T(t, 30, 400)),
                    zkf(t, ["race"], T(t, 2, 25), depth=8, shards=8)],
            "need": ["new", "serve", "touch", "get", "load", "download", "loadall", "downloadall", "insecure", "hashes", "crash", "race", "refused", "vanished",
                     "wrong_bytes", "failed_transfer", "crash_stall", "crash_rename", "race_failing_true"]}


PLANS["C22"] = c22


def chain(t, ops, n, local=False, depth=40, shards=4, **kw):
    return {"spec": "Chain", "module": "chain", "flavours": ["local" if local else ""], "only": ["chain."], "num": n, "depth": depth * 14, "shards": shards,
            "params": dict({"ids": 3, "states": 6, "cts": 1 if local else 2, "local": local, "maxB": 10 ** 6, "maxTx": 10 ** 6, "ops": ops, "depth": depth, "rec": True, "draw": True}, **kw)}


def chain_mc(ids, states, maxB, maxTx, local):
    return {"spec": "Chain", "inv": ["Caused", "Ordered", "NoZero", "QueryRight"], "props": ["Kept", "Settled"], "workers": 4, "constraint": "Bound", "timeout": 600,
            "params": {"ids": ids, "states": states, "cts": 1, "local": local, "maxB": maxB, "maxTx": maxTx, "ops": ["submit", "mine"] + ([] if local else ["drop"]),
                       "depth": 0, "rec": False, "draw": False}}


def c23(t):
    mix = ["submit"] * 6 + ["mine"] * 6 + ["query"] * 8 + ["confirm"] * 4
    return {"mc": [chain_mc(2, 2, 3, 2, False), chain_mc(1, 2, 3, 3, True)] + T(t, [], [chain_mc(1, 2, 4, 3, False), chain_mc(2, 2, 2, 3, True)]),
            "sim": [chain(t, mix + ["misc", "drop"], T(t, 40, 1200)), chain(t, mix, T(t, 250, 6000), local=True, shards=2)],
            "need": ["submit", "mine", "query", "confirm", "misc", "drop", "refused", "no_account", "waited", "confirm_ok", "confirm_failed", "confirm_pool", "confirm_gone",
                     "query_absent", "query_before", "query_other", "query_future", "confirm_failed_receipt", "confirm_failed_header", "confirm_failed_unmined"] +
                    ["query_failed_" + h for h in ["500", "close", "cut", "rpcerr", "html", "null", "empty", "short"]] +
                    ["submission_failed_" + h for h in ["gas", "nonce", "before", "after"]]}


PLANS["C23"] = c23


# ------------------------------------------------------------------ C24
ALLG = ["write", "early", "once", "after"]


def lock_mc(threads, each, without=None, expect=None, workers=4):
    j = {"spec": "TreeLock", "inv": ["Linearizable", "NothingLost", "MemoryIsNow", "Agree", "OneWriter"], "workers": workers,
         "params": {"threads": threads, "keys": 2, "each": each, "guard": [g for g in ALLG if g != without]}, "timeout": 800}
    if expect:
        # a single worker finds the same violation every time
        j.update({"expect": expect, "workers": 1, "inv": [expect]})
    else:
        j.update({"props": ["Finishes"], "fair": True})
    return j


def conc(cmd, spec, mode, num, shards, race=False):
    return {"cmd": cmd, "spec": spec, "sig": "lin.history", "num": num, "shards": shards, "race": race, "args": ["-mode", mode, "-backend", "both"],
            "denv": {"GORACE": "halt_on_error=1"} if race else {}}


def c24(t):
    return {"mc": [lock_mc(3, 1), lock_mc(3, 1, "write", "OneWriter"), lock_mc(3, 1, "early", "NothingLost"), lock_mc(3, 1, "once", "Linearizable")] +
                  T(t, [], [lock_mc(3, 2)]),
            "trace": [conc("conctree", "TreeLin", "gated", T(t, 360, 2400), 2), conc("concissuer", "IssuerLin", "gated", T(t, 240, 1600), 2),
                      conc("conctree", "TreeLin", "free", T(t, 180, 900), 1), conc("concissuer", "IssuerLin", "free", T(t, 120, 600), 1),
                      conc("conctree", "TreeLin", "free", T(t, 120, 900), 1, True), conc("concissuer", "IssuerLin", "free", T(t, 60, 600), 1, True)],
            "need": ["add", "import", "get", "has", "proof", "root", "dump", "dumptree", "walk", "snap", "reopen", "earlier", "overlapping", "switches", "waits",
                     "add.ok", "add.exists", "add.max", "issue.ok", "issue.exists", "revoke.ok", "revoke.exists", "revoke.notfound", "publish.ok", "publish.pending",
                     "sync", "mine", "advance", "cred.ok", "cred.zero", "cred.notyet", "cred.notfound", "pending", "onchain", "data", "submitted"] +
                    ["%s.%s" % (m, b) for m in ("gated", "free") for b in ("mem", "level")]}


PLANS["C24"] = c24

# ------------------------------------------------------------------ C28
def cache_mc(slots, writers, readers, states, without=None, expect=None):
    j = {"spec": "CacheLock", "inv": ["Whole", "Recent"], "workers": 2, "timeout": 300,
         "params": {"slots": slots, "writers": writers, "readers": readers, "states": states, "guard": [g for g in ("read", "write") if g != without]}}
    if expect:
        j.update({"expect": expect, "workers": 1, "inv": [expect]})
    else:
        j.update({"props": ["Ends"], "fair": True})
    return j


def c28(t):
    return {"mc": [cache_mc(2, 2, 2, 4), cache_mc(2, 2, 1, 4, "read", "Whole"), cache_mc(2, 2, 1, 4, "write", "Recent")] + T(t, [], [cache_mc(3, 3, 2, 6)]),
            "trace": [conc("concshared", "SharedLin", "gated", T(t, 360, 3000), 2), conc("concshared", "SharedLin", "free", T(t, 420, 3500), 2),
                      conc("concshared", "SharedLin", "free", T(t, 210, 1400), 2, True)],
            "need": ["%s.%s" % (o, m) for o in ("cache", "keys", "chain") for m in ("gated", "free")] + ["kv.free", "nonces.free", "cache.local", "cache.server",
                     "overlapping", "switches", "commit.ok", "get", "list", "publish.ok", "latest", "fetch", "add.ok", "add.dup", "search", "take", "aux.ok", "aux.no", "clean.ok",
                     "import.ok", "import.closed", "unlock.ok", "unlock.wrong", "unlock.absent", "unlock.closed", "sign.ok", "sign.locked", "export.ok", "keys", "stored",
                     "init.ok", "init.exists", "init.proof", "set.ok", "set.absent", "set.proof", "sync.ok", "confirm.ok", "confirm.none", "confirm.failed"]}


PLANS["C28"] = c28
TECHNIQUE["C28"] = ("an explicit TLA+ specification of each shared part as an abstract object; TLC decides, against it, histories recorded from goroutines "
                    "using the real code under scheduled and free interleavings, also with the race detector")
NOTE["C28"] = "sampled schedules of the code, every recorded history decided exactly"

TECHNIQUE["C24"] = ("explicit TLA+ specifications: TLC checks the locking design exhaustively (and that leaving out a guard breaks it), and decides, "
                    "against the specification of the abstract object, histories recorded from goroutines using the real code under scheduled and free interleavings")
NOTE["C24"] = "exhaustive for the design at 3 threads; sampled schedules of the code, every recorded history decided exactly"


# ------------------------------------------------------------------ C27
CODEC_HOWS = ["put", "ins", "del", "cut", "drop", "add", "upper", "strip", "unpad", "pre", "twice"]
CODEC_CHARS = [0, 9, 10, 13, 32, 43, 45, 47, 48, 57, 58, 61, 64, 65, 70, 71, 88, 90, 91, 95, 96, 97, 102, 103, 120, 122, 123, 127]


def codec(t, ops, codecs, n, depth=60, maxlen=40, shards=2):
    return {"spec": "Codec", "module": "codec", "flavours": [""], "only": ["codec."], "num": n, "depth": depth * 4, "shards": shards,
            "params": {"ops": ops, "codecs": codecs, "bytes": list(range(256)) + [0, 255] * 20, "chars": CODEC_CHARS, "maxLen": maxlen, "maxEdits": 10 ** 6, "bitmap": 12,
                       "hows": CODEC_HOWS, "depth": depth, "rec": True, "draw": True}}


def codec_mc(codecs, by, chars, maxlen, edits, hows):
    return {"spec": "Codec", "inv": ["RoundTrip", "NoMisread", "Distinct"], "workers": 4, "timeout": 600,
            "params": {"ops": ["encode", "decode"], "codecs": codecs, "bytes": by, "chars": chars, "maxLen": maxlen, "maxEdits": edits, "bitmap": 1,
                       "hows": hows, "depth": 0, "rec": False, "draw": False}}


def c27(t):
    text = ["hex", "hexjson", "hexinto", "hextype", "b64", "b64opt", "b64raw", "ctype"]
    edits = ["put", "ins", "del", "upper", "unpad", "strip", "pre"]
    return {"mc": [codec_mc(["hex", "hexinto", "hextype", "b64", "b64opt", "b64raw"], [0, 251, 165], [48, 120, 103, 61, 65, 10], T(t, 2, 3), 2, edits),
                   codec_mc(["ctype"], [0, 2], [48, 58, 115], 8, T(t, 1, 2), ["put", "del", "upper", "drop", "cut"])],
            "sim": [codec(t, ["encode"] + ["decode"] * 4, text, T(t, 500, 2500), maxlen=T(t, 12, 24)),
                    codec(t, ["encode"] + ["decode"] * 3, ["hash", "hash", "data", "entry", "claim"], T(t, 100, 500), depth=30),
                    codec(t, ["uint", "bits", "elem", "ints", "hexs", "bytes", "list", "leaf", "hash", "signals", "inputs"], ["hex"], T(t, 240, 1000)),
                    codec(t, ["hexz"], ["hex"], T(t, 4, 20), depth=2)],
            "need": ["encode", "decode", "edited", "malformed", "damaged", "uint", "bits", "elem", "ints", "hexs", "bytes", "list", "leaf", "hash", "signals", "inputs"]}


PLANS["C27"] = c27
NOTE["C27"] = "exhaustive for the specification on short values and up to two edits; sampled values and edits for the code"
