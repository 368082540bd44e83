"""Runs one generated case with the real Python client. Roles: `producer` and `consumer`.

Talks to the check by files in the case's folder: reads case.json, writes events-*.jsonl.
The check decides; nothing is judged here.
"""
import asyncio
import json
import os
import pickle
import signal
import sys
import threading
import time
import traceback

from opsqueue.common import json_as_bytes
from opsqueue.consumer import ConsumerClient, Strategy
from opsqueue.producer import ProducerClient, SubmissionId
import cbor2

DIR = sys.argv[2]
CASE = json.load(open(os.path.join(DIR, "case.json")))
ADDR = CASE["addr"]
STORE = CASE["store"]
FORMATS = {"cbor": cbor2, "json": json_as_bytes, "pickle": pickle}


def dec(v):
    """Values in the case file: bytes are written as {"$b": [...]}"""
    if isinstance(v, dict):
        if "$b" in v:
            return bytes(v["$b"])
        return {k: dec(x) for k, x in v.items()}
    if isinstance(v, list):
        return [dec(x) for x in v]
    return v


def enc(v):
    if isinstance(v, (bytes, bytearray)):
        return {"$b": list(v)}
    if isinstance(v, dict):
        return {str(k): enc(x) for k, x in v.items()}
    if isinstance(v, (list, tuple)):
        return [enc(x) for x in v]
    if v is None or isinstance(v, (bool, int, float, str)):
        return v
    return {"$other": repr(v)}


_lock = threading.Lock()
_log = open(os.path.join(DIR, f"events-{sys.argv[1]}-{sys.argv[3] if len(sys.argv) > 3 else 0}.jsonl"), "a")


def emit(**kw):
    with _lock:
        _log.write(json.dumps(kw) + "\n")
        _log.flush()


def error(e):
    out = {"type": type(e).__name__, "bases": [c.__name__ for c in type(e).__mro__], "text": str(e)}
    sub = getattr(e, "submission", None)
    if sub is not None:
        out["kind"] = type(sub).__name__
        sub = getattr(sub, "submission", sub)
        out["submission_id"] = sub.id.id
        for k in ("chunks_total", "chunks_done", "failed_chunk_id"):
            if hasattr(sub, k):
                out[k] = getattr(sub, k)
        if hasattr(sub, "metadata"):
            out["metadata"] = enc(sub.metadata)
        if hasattr(sub, "strategic_metadata"):
            out["strategic"] = sub.strategic_metadata
    chunk = getattr(e, "chunk", None)
    if chunk is not None:
        out["chunk_index"] = chunk.chunk_index.id
        out["failure"] = chunk.failure
    if hasattr(e, "max_submissions"):
        out["max"] = e.max_submissions
    if hasattr(e, "submission_id"):
        out["id"] = getattr(e.submission_id, "id", e.submission_id)
    return out


def attempt(f):
    try:
        return {"ok": f()}
    except BaseException as e:  # noqa
        return {"err": error(e)}


def status(c, sid):
    s = c.get_submission_status(sid)
    if s is None:
        return None
    out = {"kind": type(s).__name__.split("_")[-1]}
    sub = s.submission
    out["id"] = sub.id.id
    out["metadata"] = enc(sub.metadata)
    out["strategic"] = sub.strategic_metadata
    out["chunks_total"] = sub.chunks_total
    if hasattr(sub, "chunks_done"):
        out["chunks_done"] = sub.chunks_done
    if hasattr(s, "chunk"):
        out["chunk_index"] = s.chunk.chunk_index.id
        out["failure"] = s.chunk.failure
    return out


# ------------------------------------------------------------------------------- producer


def run_action(c, i, a):
    ops = dec(a["ops"])
    fmt = FORMATS[a["fmt"]]
    kw = dict(metadata=dec(a["metadata"]), strategic_metadata=a["strategic"])
    size = a["chunk_size"]
    how = a["how"]
    source = (x for x in ops) if a["lazy"] else ops

    def collect(it):
        return enc(list(it))

    def by_id(sid):
        emit(ev="inserted", action=i, id=sid.id)
        return sid

    if how == "run":
        return attempt(lambda: collect(c.run_submission(source, chunk_size=size, serialization_format=fmt, **kw)))
    if how == "run_chunks":
        def f():
            chunks = [fmt.dumps(ops[k : k + size]) for k in range(0, len(ops), size)]
            return [x for b in c.run_submission_chunks(chunks, chunk_size=size, **kw) for x in enc(fmt.loads(b))]
        return attempt(f)
    if how == "block":
        sid = by_id(c.insert_submission(source, chunk_size=size, serialization_format=fmt, **kw))
        r = attempt(lambda: collect(c.blocking_stream_completed_submission(sid, serialization_format=fmt)))
        # what has ended is described as such
        emit(ev="after", action=i, cancel=attempt(lambda: c.cancel_submission(sid)), status=attempt(lambda: status(c, sid)),
             found=attempt(lambda: [x.id for x in c.lookup_submission_ids_by_strategic_metadata({"n": i})]))
        return r
    if how == "poll":
        sid = by_id(c.insert_submission(source, chunk_size=size, serialization_format=fmt, **kw))
        while True:
            r = attempt(lambda: collect(c.try_stream_completed_submission(sid, serialization_format=fmt)))
            if r.get("err", {}).get("type") != "SubmissionNotCompletedYetError":
                return r
            time.sleep(0.02)
    if how == "twice":
        # the results can be looked up again
        sid = by_id(c.insert_submission(source, chunk_size=size, serialization_format=fmt, **kw))
        attempt(lambda: collect(c.blocking_stream_completed_submission(sid, serialization_format=fmt)))
        return attempt(lambda: collect(ProducerClient(ADDR, STORE).try_stream_completed_submission(sid, serialization_format=fmt)))
    if how == "async":
        async def f():
            return enc([x async for x in await c.async_run_submission(source, chunk_size=size, serialization_format=fmt, **kw)])
        return attempt(lambda: asyncio.run(f()))
    if how == "gather":
        async def f():
            half = len(ops) // 2
            async def one(part):
                return enc([x async for x in await c.async_run_submission(part, chunk_size=size, serialization_format=fmt, **kw)])
            a, b = await asyncio.gather(one(ops[:half]), one(ops[half:]))
            return a + b
        return attempt(lambda: asyncio.run(f()))
    raise ValueError(how)


def prefixes():
    at = STORE.removeprefix("file://")
    return set(os.listdir(at))


def early(c, i, a):
    """What can be tried while nobody works."""
    what = a["early"]
    ops = dec(a["ops"])
    fmt = FORMATS[a["fmt"]]
    kw = dict(metadata=dec(a["metadata"]), strategic_metadata=a["strategic"], chunk_size=a["chunk_size"], serialization_format=fmt)
    out = {}
    if what == "unknown":
        sid = SubmissionId(a["unknown"])
        out["status"] = status(c, sid)
        out["cancel"] = attempt(lambda: c.cancel_submission(sid))
        out["stream"] = within(lambda: list(c.blocking_stream_completed_submission(sid, serialization_format=fmt)))
        out["try"] = attempt(lambda: list(c.try_stream_completed_submission(sid, serialization_format=fmt)))
        return out
    if what == "broken":
        def source():
            yield from ops
            raise ZeroDivisionError("broken iterator")
        out["before"] = c.count_submissions()
        out["insert"] = attempt(lambda: c.insert_submission(source(), **kw).id)
        out["after"] = c.count_submissions()
        return out
    if what == "zero":
        kw["chunk_size"] = a["bad_size"]
        out["before"] = c.count_submissions()
        out["insert"] = attempt(lambda: c.insert_submission(ops, **kw).id)
        out["after"] = c.count_submissions()
        return out
    if what == "interrupt-reserve":
        # nothing is available: a request waits until Ctrl-C. The client stays connected.
        keep.append(ConsumerClient(ADDR, STORE))
        out["reserve"] = interrupted(lambda: len(keep[-1].reserve_chunks(a["max"], Strategy.Random())))
        return out
    if what == "lookup":
        kw["strategic_metadata"] = {"q": i, "r": 0}
        sids = [c.insert_submission(ops, **kw) for _ in range(a["max"])]
        out["ids"] = [s.id for s in sids]
        out["found"] = attempt(lambda: [x.id for x in c.lookup_submission_ids_by_strategic_metadata({"q": i})])
        out["both"] = attempt(lambda: [x.id for x in c.lookup_submission_ids_by_strategic_metadata({"r": 0, "q": i})])
        out["other"] = attempt(lambda: [x.id for x in c.lookup_submission_ids_by_strategic_metadata({"q": i, "r": 1})])
        out["cancel"] = [attempt(lambda: c.cancel_submission(s)) for s in sids]
        out["gone"] = attempt(lambda: [x.id for x in c.lookup_submission_ids_by_strategic_metadata({"q": i})])
        return out
    had = prefixes()
    sid = c.insert_submission(ops, **kw)
    out["id"] = sid.id
    new = sorted(prefixes() - had)
    out["prefixes"] = new
    out["by-prefix"] = [attempt(lambda: c.lookup_submission_id_by_prefix(p).id) for p in new]
    out["no-prefix"] = attempt(lambda: c.lookup_submission_id_by_prefix("x" + new[0]))
    if what == "async-timeout":
        async def f():
            try:
                await asyncio.wait_for(c.async_stream_completed_submission_chunks(sid), 0.03)
            except TimeoutError:
                # the loop and the client still work
                await asyncio.sleep(0.01)
                return c.get_submission_status(sid) is not None
            return "no timeout"
        out["timeout"] = within(lambda: asyncio.run(f()))
    if what == "interrupt":
        out["stream"] = interrupted(lambda: enc(list(c.blocking_stream_completed_submission(sid, serialization_format=fmt))))
    out["status"] = status(c, sid)
    out["found"] = [x.id for x in c.lookup_submission_ids_by_strategic_metadata(a["strategic"])] if a["strategic"] else None
    out["try"] = attempt(lambda: enc(list(c.try_stream_completed_submission(sid, serialization_format=fmt))))
    waiting = None
    if what == "cancel-waiting":
        waiting = start(lambda: enc(list(c.blocking_stream_completed_submission(sid, serialization_format=fmt))))
        time.sleep(0.03)
    if what == "cancel-async":
        async def f():
            return enc([x async for x in await c.async_stream_completed_submission_chunks(sid)])
        waiting = start(lambda: asyncio.run(f()))
        time.sleep(0.03)
    out["cancel"] = attempt(lambda: ProducerClient(ADDR, STORE).cancel_submission(sid))
    out["again"] = attempt(lambda: c.cancel_submission(sid))
    out["status-after"] = status(c, sid)
    out["stream"] = within(lambda: enc(list(c.blocking_stream_completed_submission(sid, serialization_format=fmt))))
    if waiting:
        out["waited"] = finish(waiting)
    return out


keep = []


def interrupted(f):
    """Ctrl-C while the main thread is inside f"""
    timer = threading.Timer(0.05, lambda: os.kill(os.getpid(), signal.SIGINT))
    timer.start()
    t = time.monotonic()
    try:
        out = attempt(f)
        timer.join()
        time.sleep(0.01)
    except KeyboardInterrupt:
        out = {"err": {"type": "late"}}
    out["took"] = time.monotonic() - t
    return out


def start(f):
    box = {}
    t = threading.Thread(target=lambda: box.update(attempt(f)), daemon=True)
    t.start()
    return t, box


def finish(p):
    t, box = p
    t.join(CASE["patience"])
    return dict(box) if box else {"hang": True}


def within(f):
    return finish(start(f))


def producer():
    c = ProducerClient(ADDR, STORE)
    for i, a in enumerate(CASE["early"]):
        try:
            emit(ev="early", action=i, result=early(c, i, a))
        except BaseException as e:  # noqa
            emit(ev="early", action=i, result={"raised": error(e)})
    print("READY", flush=True)
    threads = []

    def one(i, a):
        client = c if a["shared"] else ProducerClient(ADDR, STORE)
        try:
            emit(ev="action", action=i, result=run_action(client, i, a))
        except BaseException as e:  # noqa
            emit(ev="action", action=i, result={"raised": error(e), "trace": traceback.format_exc()})

    for i, a in enumerate(CASE["actions"]):
        t = threading.Thread(target=one, args=(i, a), daemon=True)
        t.start()
        threads.append(t)
        if a["wait"]:
            t.join()
    for t in threads:
        t.join()
    print("DONE", flush=True)


# ------------------------------------------------------------------------------- consumer


class Leave(BaseException):
    pass


def first_time(key):
    try:
        os.close(os.open(os.path.join(DIR, f"mark-{key}"), os.O_CREAT | os.O_EXCL))
        return True
    except FileExistsError:
        return False


def work(op):
    if isinstance(op, dict) and "!" in op:
        kind, key = op["!"], op["key"]
        if kind == "bad":
            raise ValueError(f"bad-{key} ü")
        if kind == "once" and first_time(key):
            raise RuntimeError(f"once-{key}")
        if kind == "leave" and first_time(key):
            raise Leave(f"leave-{key}")
        if kind == "type" and first_time(key):
            return lambda: 0  # no format can write this
        if kind == "slow":
            time.sleep(0.02)
    return ["done", op]


def strategy(s):
    if isinstance(s, dict):
        return Strategy.PreferDistinct(meta_key=s["key"], underlying=strategy(s["under"]))
    return {"oldest": Strategy.Oldest, "newest": Strategy.Newest, "random": Strategy.Random}[s]()


def seen(chunk, ops):
    emit(ev="chunk", id=chunk.submission_id.id, index=chunk.chunk_index.id, retries=chunk.retries, prefix=chunk.submission_prefix, by=threading.current_thread().name,
         metadata=enc(chunk.submission_metadata), ops=enc(ops))


def serve(c, m):
    fmt = FORMATS[CASE["fmt"]]
    strat = strategy(m["strategy"])
    how = m["how"]
    if how == "each_op":
        c.run_each_op(work, strategy=strat, serialization_format=fmt)
    elif how == "each_chunk":
        def f(ops, chunk):
            seen(chunk, ops)
            return [work(x) for x in ops]
        c.run_each_chunk(f, strategy=strat, serialization_format=fmt)
    elif how == "raw":
        def g(chunk):
            ops = fmt.loads(chunk.input_content)
            seen(chunk, ops)
            out = [work(x) for x in ops]
            return "not bytes" if any(callable(x) for x in out) else fmt.dumps(out)
        c.run_each_chunk_raw(g, strategy=strat)
    else:
        while True:
            chunks = c.reserve_chunks() if m["default"] else c.reserve_chunks(m["max"], strat)
            if len(chunks) > (1 if m["default"] else m["max"]):
                emit(ev="toomany", n=len(chunks), max=m["max"])
            leave = None
            for chunk in chunks:
                try:
                    ops = fmt.loads(chunk.input_content)
                    seen(chunk, ops)
                    out = fmt.dumps([work(x) for x in ops])
                except Exception as e:
                    c.fail_chunk(chunk.submission_id, chunk.submission_prefix, chunk.chunk_index, str(e))
                except Leave as e:
                    c.fail_chunk(chunk.submission_id, chunk.submission_prefix, chunk.chunk_index, str(e))
                    leave = e
                else:
                    c.complete_chunk(chunk.submission_id, chunk.submission_prefix, chunk.chunk_index, out)
            if leave:
                raise leave


def consumer(idx):
    p = CASE["consumers"][idx]
    shared = ConsumerClient(ADDR, STORE)

    def one(k, m):
        c = shared if p["shared"] else ConsumerClient(ADDR, STORE)
        while True:
            try:
                serve(c, m)
                emit(ev="stopped", thread=k)
            except Leave as e:
                # comes back as a new worker
                emit(ev="left", thread=k, text=str(e))
            except BaseException as e:  # noqa
                emit(ev="crashed", thread=k, how=m["how"], error=error(e), trace=traceback.format_exc())
                time.sleep(0.05)

    for k, m in enumerate(p["threads"]):
        threading.Thread(target=one, args=(k, m), daemon=True, name=f"{idx}.{k} {m['how']}").start()
    sys.stdin.read()


# a background job starts with Ctrl-C ignored
signal.signal(signal.SIGINT, signal.default_int_handler)
if sys.argv[1] == "producer":
    producer()
else:
    consumer(int(sys.argv[3]))
_log.flush()
os._exit(0)
