COMMON = " Trusts the shims of std/tokio/hyper (mc/vstd, vtokio, vhyper), the simulated node and the reference ledger; sequentially consistent memory."
def n(technique, note):
    return (technique, note + COMMON)
SMC = "stateless model checking of the real program under a controlled scheduler: "
ENUM = "explicit enumeration of executions of the real program: "
NOTES = {
 "C01": n(ENUM + "all chain histories to a depth", "Every history within the stated bounds is executed on the real code and compared with a replay at every depth."),
 "C02": n(ENUM + "all branch-switch histories, and node events at every RPC call", "Every history and every placement of an event within the bounds is executed on the real code."),
 "C03": n(ENUM + "all mempool histories, and node events at every RPC call", "Every history and every placement of an event within the bounds is executed on the real code."),
 "C04": n(SMC + "all interleavings of queries with updates within a preemption bound", "Scheduling points are lock, channel, RPC, disk and task operations; preemptions are bounded."),
 "C05": n(SMC + "all interleavings of updates, writes and queries within a preemption bound", "Preemptions are bounded; every query must be answered and every update complete in each schedule."),
 "C06": n("fault enumeration on the real program: a stall at every disk operation, with all following node events; interleavings of updates with the stalled writer", "A stalled operation lasts until everything else is quiet."),
 "C07": n("crash-point enumeration on the real program: every disk operation, every torn length, every loss of unsynced data", "The disk model loses any suffix of metadata operations after the last sync, and of unsynced data all, half or none."),
 "C08": n(SMC + "all interleavings of updates with writes within a delay bound, then a restart from every file written", "Delays are bounded; the height a restart asks for first tells what a file holds."),
 "C09": n(ENUM + "all histories with a restart at every place", "Every history within the bounds is executed on the real code."),
 "C10": n(SMC + "all interleavings of update bursts with the writer within a delay bound", "Delays are bounded; the height a restart asks for first tells what was persisted."),
 "C11": n(SMC + "all interleavings of the workers within a preemption bound, over chains, thread counts and batch sizes", "Preemptions are bounded; larger configurations are run on one schedule each."),
 "C12": n(SMC + "all interleavings of the real worker pools within a preemption bound, over inputs, threads and the failing input", "Calls the pools through their own interface; where that has changed, through index construction only."),
 "C13": n(ENUM + "all block trees to a size, all orders, files and paddings", "The oracle is the longest path from genesis in the enumerated tree."),
 "C14": n(ENUM + "all relations of block files to the node's chain within bounds, and node events at every start-up call", "Every situation within the bounds is executed on the real code."),
 "C15": n(ENUM + "all transaction programs to a length, with every cut into layers", "Every program within the bounds is executed on the real code and compared with a replay."),
 "C16": n(ENUM + "the product of encoding classes of blocks and transactions", "The inputs are enumerated by class; the oracle is an independent serialiser."),
 "C17": n(ENUM + "all near-misses of the two script templates", "The inputs are enumerated by class; the oracle is an independent template match."),
 "C18": n(ENUM + "all strings near valid addresses, and short strings", "The inputs are enumerated by class; the oracle is an independent Base58Check."),
 "C19": n(ENUM + "all short byte strings and texts, classes of long ones, all buffer states", "The inputs are enumerated by class; the codecs are called through their own interface where it is unchanged."),
 "C20": n(ENUM + "the product of request parts and of body splits", "The inputs are enumerated by class; the oracle is an independent model of the routes."),
 "C21": n(ENUM + "amounts by class and range, single and in sums", "The decimal text of each response is compared exactly."),
 "C22": n("fault enumeration on the real program: every fault of a menu at every RPC call, pairs of faults, every split of every body", "A misbehaving reply is a failure or malformed, not a well-formed untruth."),
 "C23": n("fault enumeration under all interleavings within a delay bound: each part of the real program fails at every operation", "The process may go on for a few updates before it ends; delays are bounded."),
 "C24": n(ENUM + "all single and paired deviations of the environment, all sets of variables left out", "The effects observed are the address listened on, calls made, files touched, depths and poll period."),
 "C25": n("fault enumeration on the real program: a clock step of every size at every reading, and pairs", "The monotonic clock is not affected by steps."),
 "C26": n("fault enumeration on the real program: every RPC call of an update takes its time, with all following events, queries and ends; interleavings of queries with such an update within a delay bound", "A slow call lasts until everything else is quiet and several intervals have passed."),
}
