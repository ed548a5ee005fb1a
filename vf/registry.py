"""Which proofs decide which property."""
import os
from .run import Proof

GL = "src/global.cpp"
MC = "src/memcache/memcache.cpp"
PROPERTIES = {
    "C01": dict(
        level="proof",
        proofs=[
            Proof("text_request.cpp", "text_parse", [MC], par=True),
        ] + [Proof("text_fields.cpp", n, [MC, GL], par=True) for n in (
            "text_storage", "text_keyed", "text_simple", "text_reject", "text_incomplete")
        ] + [Proof("text_fields.cpp", n, [MC, GL], par=True, limit="separators of exactly two spaces") for n in (
            "text_storage_spaces", "text_keyed_spaces", "text_simple_spaces")],
        assumptions=[], trusted=[]),
    "C02": dict(level="proof", proofs=[Proof("binary_request.cpp", "binary_parse", [MC, GL])]),
}
CC = "src/counter/counter.cpp"
CO = [GL, "src/config.cpp", "src/counter/stats.cpp"]
PROPERTIES["C13"] = dict(level="proof", proofs=[Proof("counter_request.cpp", "counter_parse", [CC])])
PROPERTIES["C14"] = dict(level="proof", proofs=[
    Proof("counter_object.cpp", n, CO) for n in ("counter_create", "counter_acquire", "counter_release")])
UT = "cybozu/util.cpp"
PROPERTIES["C20"] = dict(level="proof", proofs=[Proof("dynbuf.cpp", "dynbuf_" + n, [UT]) for n in (
    "new", "append", "prepare", "erase", "reset", "swap", "move", "equal")])
PROPERTIES["C08"] = dict(level="proof", proofs=[Proof("dynbuf_erase.cpp", "erase_" + n, [UT], ["erase"]) for n in (
    "append", "prepare", "erase", "reset", "swap", "move", "destroy")])
STD = os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), "contracts", "stdlib.cpp")
TF = ["src/tempfile.cpp", UT, GL, "src/config.cpp", STD]
PROPERTIES["C21"] = dict(level="proof", proofs=[Proof("tempfile.cpp", "tempfile_" + n, TF, ["kernel"], par=n == "read") for n in (
    "write", "read", "clear", "new")])
OB = ["src/memcache/object.cpp", "src/tempfile.cpp", "src/memcache/stats.cpp", UT, GL, "src/config.cpp", STD]
PROPERTIES["C07"] = dict(level="proof", proofs=[Proof("object.cpp", "object_" + n, OB, ["file"], par=n == "prepend") for n in (
    "new", "new_number", "set", "append", "prepend", "touch", "move", "read")])
PROPERTIES["C06"] = dict(level="proof", proofs=[
    Proof("object.cpp", "object_new_number", OB, ["file"]),
    Proof("object_number.cpp", "object_incr", OB, ["file"], par=True),
    Proof("object_number.cpp", "object_decr", OB, ["file"], par=True)])
SK = ["src/memcache/sockets.cpp", "src/memcache/memcache.cpp", "src/memcache/replication.cpp", "src/memcache/object.cpp",
      "src/memcache/stats.cpp", "src/tempfile.cpp", "cybozu/tcp.cpp", "cybozu/reactor.cpp", UT, GL, "src/config.cpp", STD]
BIN = {n: Proof("command_bin.cpp", "bin_" + n, SK, ["command"], par=n in ("get", "lag", "rau", "store", "incdec", "bad", "delete", "lock", "unlock")) for n in (
    "get", "lag", "store", "rau", "concat", "delete", "incdec", "touch", "lock", "unlock", "release", "flush", "misc", "keys", "bad")}
TXT = {n: Proof("command_text.cpp", "text_" + n, SK, ["command"], par=n in ("store", "incdec", "get", "get_two", "concat", "delete", "bad"),
                limit="two keys" if n == "get_two" else "") for n in (
    "store", "concat", "incdec", "touch", "delete", "lock", "unlock", "release", "get", "get_two", "keys", "flush", "misc", "bad")}
def txt_(*names):
    return [TXT[n] for n in names]
STATS = [Proof("command_stats.cpp", "bin_stat", SK, ["command", "stats"]), Proof("command_stats.cpp", "text_stat", SK, ["command", "stats"]),
         Proof("command_stats.cpp", "bin_stat_line", SK, ["command"])]
def bin_(*names):
    return [BIN[n] for n in names]
PROPERTIES["C03"] = dict(level="proof", proofs=list(BIN.values()))
PROPERTIES["C04"] = dict(level="proof", proofs=list(BIN.values()))
PROPERTIES["C05"] = dict(level="proof", proofs=bin_("get", "lag", "store", "rau", "concat", "delete", "incdec", "touch", "lock", "unlock", "flush", "keys", "bad"))
PROPERTIES["C06"]["proofs"] += bin_("incdec")
PROPERTIES["C12"] = dict(level="proof", proofs=list(BIN.values()))
PROPERTIES["C16"] = dict(level="proof", proofs=list(BIN.values()))
PROPERTIES["C18"] = dict(level="proof", proofs=list(BIN.values()))
PROPERTIES["C26"] = dict(level="proof", proofs=bin_("keys"))
PROPERTIES["C28"] = dict(level="proof", proofs=PROPERTIES["C02"]["proofs"] + bin_("store", "rau", "concat", "incdec", "bad"))
PROPERTIES["C17"] = dict(level="proof", proofs=list(TXT.values()))
for p in ("C03", "C04", "C12", "C18"):
    PROPERTIES[p]["proofs"] += [x for n, x in TXT.items() if p == "C18" or n != "get_two"]
PROPERTIES["C05"]["proofs"] += txt_("store", "concat", "incdec", "touch", "delete", "lock", "unlock", "get", "keys", "flush", "bad")
PROPERTIES["C06"]["proofs"] += txt_("incdec")
PROPERTIES["C26"]["proofs"] += txt_("keys")
PROPERTIES["C28"]["proofs"] += txt_("store", "concat", "bad")
PROPERTIES["C16"]["proofs"] += [STATS[0], STATS[2]]
PROPERTIES["C17"]["proofs"] += [STATS[1]]
PROPERTIES["C18"]["proofs"] += STATS[:2]
PROPERTIES["C04"]["proofs"].append(Proof("command_text.cpp", "disconnect", SK, ["command"]))
RP = ["src/memcache/replication.cpp"] + [x for x in SK if "replication" not in x]
PROPERTIES["C11"] = dict(level="proof", proofs=[
    Proof("replication.cpp", "repl_roundtrip", RP, ["command", "slave"], par=True),
    Proof("replication.cpp", "repl_partial", RP, ["command", "slave"]),
    Proof("replication.cpp", "repl_two", RP, ["command", "slaveseq"], par=True, limit="at most two messages per received buffer"),
    Proof("replication.cpp", "repl_garbage", RP, ["command", "slave"])])
NM = dict(names=2)
SP = ["cybozu/siphash.cpp"]
PROPERTIES["C23"] = dict(level="proof", proofs=[
    Proof("siphash.cpp", "byte_order", SP),
    Proof("siphash.cpp", "siphash_short", SP, par=True, opts=NM),
    Proof("siphash.cpp", "siphash_medium", SP, par=True, limit="keys of 32 to 63 bytes, one path per length", opts=NM),
    Proof("siphash.cpp", "siphash_long", SP, par=True, limit="keys of 243 to 250 bytes (the longest key), one path per length", opts=NM),
    Proof("siphash.cpp", "siphash_all", SP, par=True, tier="thorough", limit="keys of 64 to 242 bytes, one path per length", opts=NM),
    Proof("siphash.cpp", "siphash_memory", SP, opts=dict(names=6)),
    Proof("siphash.cpp", "key_hash", SP, opts=NM)])
RS = ["cybozu/reactor.cpp", "cybozu/tcp.cpp", UT, STD]
PROPERTIES["C27"] = dict(level="proof", proofs=[Proof("resource.cpp", n, RS, ["reactor"]) for n in (
    "resource_invalidate", "resource_hangup", "resource_try_close", "resource_destroy", "reactor_remove", "reactor_garbage")] + [
    Proof("resource.cpp", n, RS, ["reactor", "worker"]) for n in ("resource_with_fd", "resource_invalidate_and_close")] + [
    Proof("resource.cpp", n, RS, ["reactor", "worker", "tcp"]) for n in ("tcp_operations", "tcp_receive", "tcp_writable")] + [
    Proof("resource.cpp", "reactor_poll_lists", RS, ["reactor", "poll"], limit="at most two connections waiting for a worker and two removal requests at a time"),
    Proof("resource.cpp", "reactor_poll_events", RS, ["reactor", "poll"])])
GC = ["src/memcache/gc.cpp", "src/memcache/object.cpp", "src/memcache/stats.cpp", "src/tempfile.cpp", UT, GL, "src/config.cpp", STD]
PROPERTIES["C10"] = dict(level="proof", proofs=[
    Proof("gc.cpp", "gc_decision", GC, ["gc", "object"], par=True),
    Proof("gc.cpp", "gc_statistics", GC, ["gc", "object"], par=True),
    Proof("gc.cpp", "gc_flush", GC, ["gc", "object"]),
    Proof("gc.cpp", "gc_new", GC, ["gc", "object"], limit="at most two slaves and two new slaves"),
    Proof("gc.cpp", "gc_buckets", GC, ["gc", "bucket"], par=True)])
CS = ["src/counter/sockets.cpp", "src/counter/counter.cpp", "cybozu/tcp.cpp", "cybozu/reactor.cpp", UT, GL, "src/config.cpp", "src/counter/stats.cpp", STD]
PROPERTIES["C15"] = dict(level="proof", proofs=[
    Proof("counter_sockets.cpp", n, CS, ["counter"]) for n in ("counter_get", "counter_take", "counter_give", "counter_other", "counter_dump")] + [
    Proof("counter_sockets.cpp", n, CS, ["counter", "release"]) for n in ("counter_release_all", "counter_disconnect")])
PROPERTIES["C14"]["proofs"] += [
    Proof("counter_sockets.cpp", "counter_gc", CS + ["src/counter/gc.cpp"], ["counter", "collect"]),
    Proof("counter_sockets.cpp", "counter_gc_buckets", CS + ["src/counter/gc.cpp"], ["counter", "buckets"])]
HD = ["src/memcache/handler.cpp", "src/counter/handler.cpp", "src/counter/sockets.cpp", "src/counter/counter.cpp", "src/counter/stats.cpp", "src/counter/gc.cpp"] + SK + ["src/memcache/gc.cpp"]
PROPERTIES["C28"]["proofs"] += [Proof("limits.cpp", n, HD, ["limits"], opts=dict(max_forking=1) if n == "limit_accept" else None) for n in ("limit_clients", "limit_counter_clients", "limit_slaves", "limit_accept")]
PROPERTIES["C10"]["proofs"].append(Proof("limits.cpp", "gc_when", HD, ["limits"]))
SY = [UT, GL, "src/config.cpp", STD]
PROPERTIES["C25"] = dict(level="model_checking", proofs=[
    Proof("sync.cpp", "sync_add", SY, ["sync"], limit="at most three workers"),
    Proof("sync.cpp", "sync_check", SY, ["sync"], limit="at most two workers and three requests"),
    Proof("sync.cpp", "sync_history", SY, ["sync"], limit="two workers, two requests"),
    Proof("sync.cpp", "sync_many", SY, ["sync"], limit="64 workers, one busy"),
    Proof("sync.cpp", "worker_run", SY, ["worker"]),
    Proof("sync.cpp", "worker_post", SY, ["worker"])])
TC = ["cybozu/tcp.cpp", "cybozu/reactor.cpp", UT, STD]
PROPERTIES["C19"] = dict(level="proof", proofs=[
    Proof("output.cpp", "out_send", TC, ["output"], par=True),
    Proof("output.cpp", "out_drain", TC, ["output", "drain"], par=True, opts=dict(max_forking=1)),
    Proof("output.cpp", "out_send_buffers", TC, ["output"], par=True, limit="two buffers"),
    Proof("output.cpp", "out_sendv", TC, ["output"], par=True, limit="two parts, at most one of the system calls accepts bytes", opts=dict(max_forking=10)),
    Proof("output.cpp", "out_sendv_buffers", TC, ["output"], par=True, limit="two buffers, two parts, at most one of the system calls accepts bytes", opts=dict(max_forking=10)),
    Proof("output.cpp", "out_drain_buffers", TC, ["output", "drain"], par=True, limit="two buffers", opts=dict(max_forking=1))])
