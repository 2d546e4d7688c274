package main

var honestWeights = map[string]int{
	"adv": 10, "mut": 14, "beat": 6, "search": 30, "mon": 16, "own": 3, "upd": 8,
	"deliver": 8, "drop": 1, "crashserver": 1, "crashclient": 1, "cskew": 2, "sskew": 1, "synth": 2,
}

var realAll = []string{"tree/transparency (server, client, algorithms, math, structs)", "tree/log", "tree/prefix", "crypto/commitments", "db (LevelDB store), goleveldb on a simulated disk", "db/memory in a part of the runs"}
var stubVast = append(append([]string{}, stubAll...), "in a sixth of the runs, most log entries are made up by the store when they are read")

var stubAll = []string{"signatures and VRF: keyed hashes in 95% of runs, the real suites in 5%", "disk, clock, network, scheduler, randomness: simulated"}

func init() {
	workloads["C04"] = &Workload{
		Title: "honest", Quick: 10000, Thorough: 60000,
		Gen: manyVersions(25, vastly(6, genHonest(honestWeights, []int64{1, 1, 2, 3}))), Exec: runHonest,
		Rule: "Each seed generates a deployment (mode, store, suite, windows, clients, labels) and a history of 30-360 operations with delayed, lost and reordered messages and restarts. A run is non-trivial if the server accepted mutations and clients accepted responses; distinct by the hash of its configuration and of the sequence of outcomes.", Real: realAll, Stub: stubVast,
	}
	workloads["C01"] = &Workload{
		Title: "durability", Quick: 6000, Thorough: 100000,
		Gen:  genStorage(map[string]int{"mut": 8, "beat": 4, "remove": 2, "crash": 8, "restart": 1, "deep": 1, "search": 3, "mon": 2, "adv": 2}, []int64{1, 1, 2, 3}),
		Exec: runStorage,
		Rule: "Each seed generates a deployment and a history of mutations and reads, with crashes (process or power) at chosen disk operations. Non-trivial: at least one crash hit; distinct by configuration, crash points and outcomes.", Real: realAll, Stub: stubAll,
	}
	workloads["C02"] = &Workload{
		Title: "failed changes", Quick: 6000, Thorough: 100000,
		Gen:  genStorage(map[string]int{"mut": 6, "beat": 3, "remove": 2, "crash": 1, "eio": 6, "rfail": 6, "sfail": 3, "badmut": 2, "restart": 1, "deep": 1, "search": 3, "mon": 2, "adv": 2}, []int64{1, 1, 2, 3}),
		Exec: runStorage,
		Rule: "Each seed generates a deployment and a history of mutations and reads, with failing reads, writes and signatures at chosen operations. Non-trivial: at least one change failed; distinct by configuration, failures and outcomes.", Real: realAll, Stub: stubAll,
	}
	hw := map[string]int{"attack": 30}
	for k, v := range honestWeights {
		hw[k] = v
	}
	hw["search"] = 8
	workloads["C05"] = &Workload{
		Title: "hostile responses", Quick: 10000, Thorough: 60000,
		Gen: manyVersions(25, vastly(6, genHonest(hw, []int64{1, 1, 2, 3}))), Exec: runHostile,
		Rule: "Each seed generates a deployment and an honest history; at chosen points a copy of a client is sent series of responses that were changed (bytes, fields, replays, other requests, wrong stored data). Non-trivial: hostile responses were judged; distinct by configuration and the sequence of verdicts.", Real: realAll, Stub: stubVast,
	}
	workloads["C03"] = &Workload{
		Title: "forks", Quick: 10000, Thorough: 150000,
		Gen: vastly(6, genForks), Exec: runForks,
		Rule: "Each seed generates a deployment whose log is forked and restored from copies, and a history in which every request may be answered from any of the logs. Non-trivial: responses were judged; distinct by configuration and the sequence of outcomes.", Real: realAll, Stub: stubVast,
	}
	workloads["C11"] = &Workload{
		Title: "auditor", Quick: 30000, Thorough: 600000,
		Gen: vastly(6, genAuditor), Exec: runAuditor,
		Rule:       "Each seed generates a set of keys, windows and a series of honest and false updates for one auditor, with restarts and failing storage. Non-trivial: at least one false update was rejected and one entry accepted; distinct by configuration and the sequence of verdicts.",
		Nontrivial: func(s map[string]int64) bool { return s["rejected"] > 0 && s["accepted"] > 0 },
		Real:       []string{"tree/transparency/auditor", "tree/prefix", "tree/log (subtree hashes)", "tree/transparency/algorithms (distinguished entries)"}, Stub: []string{"the log operator is an adversary of the simulator", "the auditor's storage is simulated", "signatures: keyed hashes in most runs", "in a sixth of the runs, most log entries are not given to the auditor: its state is moved over them"},
	}
	workloads["C16"] = &Workload{
		Title: "failing reads", Quick: 6000, Thorough: 100000,
		Gen: genReadFault, Exec: runReadFault,
		Rule: "Each seed generates a deployment and an honest history; at chosen points a request is served again and again while different reads of its store or of the disk fail. Non-trivial: at least one read failed and one request was answered; distinct by configuration, failures and outcomes.",
		Nontrivial: func(s map[string]int64) bool {
			return s["failed-requests"]+s["failed-updates"] > 0 && s["accepted"] > 0
		},
		Real: append([]string{"tree/transparency/managed"}, realAll...), Stub: stubAll,
	}
	workloads["C22"] = &Workload{
		Title: "failing clients", Quick: 8000, Thorough: 100000,
		Gen: manyVersions(25, vastly(6, genHonest(clientFaultWeights, []int64{1, 1, 2, 3}))), Exec: runClientFault,
		Rule: "Each seed generates a deployment and a history of requests, in which clients crash or operations on their storage fail, with and without effect. Non-trivial: a client failed and another request was answered; distinct by configuration, failures and outcomes.",
		Nontrivial: func(s map[string]int64) bool {
			return s["failed-requests"]+s["in-doubt-requests"] > 0 && s["accepted"] > 0
		},
		Real: realAll, Stub: stubVast,
	}
	workloads["C21"] = &Workload{
		Title: "stores", Quick: 30000, Thorough: 600000,
		Gen: genStores, Exec: runStores,
		Rule:       "Each seed generates a set of keys and a history of reads, changes and commits for one store, with a failing disk and crashes. Non-trivial: something was committed; distinct by configuration and the sequence of operations.",
		Nontrivial: func(s map[string]int64) bool { return s["commits"] > 0 },
		Real:       []string{"db (LevelDB store), goleveldb on a simulated disk", "db/memory"}, Stub: []string{"disk: simulated"},
	}
	workloads["C23"] = &Workload{
		Title: "binding", Quick: 12000, Thorough: 300000,
		Gen: genBind, Exec: runBind,
		Rule:       "Two thirds of the seeds generate parties with keys of one suite, what they sign, commit to and evaluate the VRF on, and series of presentations of it in other contexts, under other keys, or changed. The others generate a deployment and copies of it that differ in one respect of their configuration or keys, and deliver messages to the wrong one. Non-trivial: something was accepted where it belongs, and something else was refused; distinct by configuration and the sequence of verdicts.",
		Nontrivial: func(s map[string]int64) bool { return s["judged"] > 0 && s["forgery-refused"] > 0 },
		Real:       []string{"crypto/suites, crypto/vrf, crypto/commitments", "tree/transparency/structs", "tree/transparency (server, client), tree/log, tree/prefix, db in a third of the runs"},
		Stub:       []string{"signatures and VRF: the real suites in most runs, keyed hashes in the others", "disk, clock, network, randomness: simulated"},
	}
	for id, ws := range concWeights {
		workloads[id] = &Workload{
			Title: "concurrent requests", Quick: 6000, Thorough: 100000,
			Gen: genConc(ws, []int64{1, 1, 2, 3}), Exec: runConc,
			Rule: "Each seed generates a deployment, and requests by several clients which are served at the same time as the log changes, one task per request. The scheduler picks the task that runs next at every operation on the store. Non-trivial: the log changed while a request was served, or an update went through; distinct by configuration, the interleaving (the sequence of tasks and operations), and outcomes.",
			Nontrivial: func(s map[string]int64) bool {
				return s["overtaken"]+s["raced"]+s["streams-own"] > 0
			},
			Real: append([]string{"tree/transparency/managed"}, realAll...), Stub: stubAll,
		}
	}
	workloads["C20"] = &Workload{
		Title: "false messages", Quick: 8000, Thorough: 300000,
		Gen: genWild, Exec: runWild,
		Rule: "Each seed generates a deployment and a history; in between, series of random, cut, changed and oversized encodings are given to the decoders of all messages and stored records, and the server gets requests that no client would make. Non-trivial: both happened; distinct by configuration and the sequence of outcomes.",
		Nontrivial: func(s map[string]int64) bool {
			return s["decoded"] > 0 && s["refused-wild"]+s["answered-wild"] > 0
		},
		Real: realAll, Stub: stubAll,
	}
	for id, ws := range rogueWeights {
		workloads[id] = &Workload{
			Title: "rogue operator", Quick: 12000, Thorough: 200000,
			Gen: genRogue(ws, rogueModes[id], id == "C06"), Exec: runRogue,
			Rule: "Each seed generates a log by a lying operator, entry by entry (versions skipped, hidden, brought back, replaced), and requests of clients which it answers with the best proofs it can make, or with such proofs changed in some steps. Non-trivial: the log has false changes, and at least one response was accepted and one rejected; distinct by configuration and the sequence of verdicts.",
			Nontrivial: func(s map[string]int64) bool {
				return s["accepted"] > 0 && s["rejected"]+s["prover-fails"] > 0 && s["fault:rogue-change"] > 0
			},
			Real: []string{"tree/transparency client (all of it), algorithms, math, structs", "tree/prefix, tree/log", "crypto/commitments", "db/memory"},
			Stub: []string{"the server is replaced by an adversary; its proofs come from the same prefix and log trees", "signatures and VRF: keyed hashes in 95% of runs, the real suites in 5%"},
		}
	}
}

var rogueWeights = map[string]map[string]int{
	"C06": {"adv": 8, "entry": 25, "search": 45, "monitor": 3},
	"C08": {"adv": 14, "entry": 25, "search": 30, "monitor": 25},
	"C09": {"adv": 12, "entry": 18, "search": 10, "own": 8, "update": 20, "monitor": 25},
}

var rogueModes = map[string][]int64{"C06": {1, 1, 2, 3}, "C08": {1}, "C09": {1, 1, 2, 3}}

var concWeights = map[string]map[string]int{
	"C10": {"share": 4, "adv": 10, "mut": 12, "beat": 4, "search": 6, "mon": 8, "own": 8, "upd": 30, "seqfail": 2, "stall": 2},
	"C17": {"adv": 5, "mut": 25, "beat": 6, "search": 40, "mon": 20, "own": 6, "upd": 6, "share": 5},
}

func init() {
	workloads["C24"] = &Workload{
		Title: "what answers disclose", Quick: 4000, Thorough: 200000,
		Gen: genPrivate, Exec: runPrivate,
		Rule: "Each seed generates a configuration and a history of changes, deletions, requests of well-behaved clients and requests that no client would make, and in a quarter of the runs overlaps them. Every response and every auditor's update is searched for openings, values, labels and VRF proofs that do not belong to it. Non-trivial: messages were searched, with secrets of several versions known; distinct by configuration and the sequence of outcomes.",
		Nontrivial: func(s map[string]int64) bool {
			return s["searched-for-secrets"] > 1 && s["secrets"] > 1
		},
		Real: realAll, Stub: stubAll,
	}
	workloads["C12"] = &Workload{
		Title: "service operator of a managed log", Quick: 20000, Thorough: 1000000,
		Gen:  genOperator,
		Exec: runOperator,
		Rule: "Each seed generates up to three operator processes that share a store, up to six users, and a history of updates and other requests, during which processes crash and start, and the store, the key and the manager fail. Non-trivial: values were submitted to the manager; distinct by configuration and the interleaving.",
		Nontrivial: func(s map[string]int64) bool {
			return s["submitted"] > 0
		},
		Real: []string{"tree/transparency/managed", "db/memory (managed log store)", "structs encodings"}, Stub: []string{"manager: recorder", "faults in front of store and key"},
	}
	workloads["C13"] = &Workload{
		Title: "deletion of labels", Quick: 8000, Thorough: 200000,
		Gen:  vastly(6, genDelete(map[string]int{"adv": 4, "change": 30, "beat": 12, "fresh": 20, "old": 8, "search": 8, "mon": 6, "own": 3, "upd": 3, "crash": 3, "erased": 3}, []int64{modeContact, modeManaged, modeAudited})),
		Exec: runDelete,
		Rule: "Each seed generates a configuration and a history of changes that delete labels and create them again, and searches by clients that know nothing about the labels, through new and old server instances, while other clients go on as usual and the server restarts. Non-trivial: a label was deleted, and a search for it was judged afterwards; distinct by configuration and the sequence of outcomes.",
		Nontrivial: func(s map[string]int64) bool {
			return s["deletions"] > 0 && s["after-deletion"] > 0
		},
		Real: realAll, Stub: stubVast,
	}
	workloads["C14"] = &Workload{
		Title: "prefix tree", Quick: 3500, Thorough: 200000,
		Gen:  genTrees(map[string]int{"mut": 12, "failmut": 4, "search": 8, "failsearch": 3, "overlap": 3, "badmut": 4, "badsearch": 2, "forge": 6, "forgemut": 5}),
		Exec: runPrefix,
		Rule: "Each seed generates a set of keys of some closeness and a history of changes and searches, with reads and writes that fail, changes in the middle of searches, refused changes and forged proofs. Non-trivial: the tree changed, was searched, and forged proofs were judged; distinct by configuration and the sequence of outcomes.",
		Nontrivial: func(s map[string]int64) bool {
			return s["mutations"] > 0 && s["searches"] > 0 && s["forged"]+s["forged-changes"] > 0
		},
		Real: []string{"tree/prefix", "db/memory (prefix store)"}, Stub: []string{"faults in front of the store"},
	}
	workloads["C15"] = &Workload{
		Title: "log tree", Quick: 10000, Thorough: 2000000,
		Gen:  genTrees(map[string]int{"append": 12, "failappend": 4, "prove": 10, "failprove": 3, "overlap": 3, "bad": 4, "forge": 6}),
		Exec: runLog,
		Rule: "Each seed generates a log of a size up to 2^63 and a history of new entries and proofs, with reads and writes that fail, new entries in the middle of proofs, requests that make no sense and forged proofs. Non-trivial: entries were appended and proofs judged; distinct by configuration and the sequence of outcomes.",
		Nontrivial: func(s map[string]int64) bool {
			return s["appended"] > 0 && s["proofs"] > 0
		},
		Real: []string{"tree/log", "tree/log/math"}, Stub: []string{"store: simulated, with the chunks of a log of any size"},
	}
}
