"""Worker of check C20: runs calls of the Python package, one JSON request per line, one JSON reply per line."""
import io
import json
import os
import sys
import threading
import time
import http.server
import urllib.parse

out = os.fdopen(os.dup(1), "w")
os.dup2(2, 1)
import pyarrow as pa
import hudi
from hudi import HudiFileGroupReader, HudiTable, HudiTableBuilder


def batches(bs):
    assert isinstance(bs, list), type(bs)
    return [batch(b) for b in bs]


def batch(b):
    assert isinstance(b, pa.RecordBatch), type(b)
    s = io.BytesIO()
    with pa.ipc.new_stream(s, b.schema) as w:
        w.write_batch(b)
    return s.getvalue().hex()


def schema(s):
    assert isinstance(s, pa.Schema), type(s)
    b = io.BytesIO()
    with pa.ipc.new_stream(b, s):
        pass
    return b.getvalue().hex()


def fslice(f):
    return [f.file_id, f.partition_path, f.creation_instant_time, f.base_file_name, f.base_file_size,
            f.base_file_byte_size, list(f.log_file_names), f.num_records, f.base_file_relative_path(),
            list(f.log_files_relative_paths())]


def instant(i):
    return [i.timestamp, i.action, i.state, i.epoch_mills]


def tup(f):
    return None if f is None else [tuple(x) for x in f]


def open_table(c):
    via = c["via"]
    if via == "ctor":
        return HudiTable(c["uri"], c["options"] if c["options"] or not c.get("none") else None)
    b = HudiTableBuilder.from_base_uri(c["uri"])
    if via == "builder":
        return b.with_options(c["options"]).with_hudi_options(c["hudi"]).with_storage_options(c["storage"]).build()
    for k, v in c["options"].items():
        b = b.with_option(k, v)
    for k, v in c["hudi"].items():
        b = b.with_hudi_option(k, v)
    for k, v in c["storage"].items():
        b = b.with_storage_option(k, v)
    return b.build()


def call(t, m, a):
    if m == "info":
        return [t.table_name, t.table_type, t.is_mor, t.timezone]
    if m == "hudi_options":
        return t.hudi_options()
    if m == "storage_options":
        return t.storage_options()
    if m == "get_avro_schema":
        return t.get_avro_schema()
    if m in ("get_schema", "get_partition_schema"):
        return schema(getattr(t, m)())
    if m == "get_file_slices":
        return [fslice(f) for f in (t.get_file_slices(tup(a[0])) if a[0] is not None else t.get_file_slices())]
    if m == "get_file_slices_as_of":
        return [fslice(f) for f in t.get_file_slices_as_of(a[0], tup(a[1]))]
    if m == "get_file_slices_between":
        return [fslice(f) for f in t.get_file_slices_between(a[0], a[1])]
    if m == "get_file_slices_splits":
        return [[fslice(f) for f in s] for s in t.get_file_slices_splits(a[0], filters=tup(a[1]))]
    if m == "get_file_slices_splits_as_of":
        return [[fslice(f) for f in s] for s in t.get_file_slices_splits_as_of(a[0], a[1], filters=tup(a[2]))]
    if m == "read_snapshot":
        return batches(t.read_snapshot(tup(a[0])) if a[0] is not None else t.read_snapshot())
    if m == "read_snapshot_as_of":
        return batches(t.read_snapshot_as_of(a[0], tup(a[1])))
    if m == "read_incremental_records":
        return batches(t.read_incremental_records(a[0], a[1]) if a[1] is not None else t.read_incremental_records(a[0]))
    if m == "read_slices":
        r = t.create_file_group_reader_with_options(a[0])
        return [batch(r.read_file_slice(f)) for f in t.get_file_slices()]
    if m == "read_slices_as_of":
        r = t.create_file_group_reader_with_options()
        return [batch(r.read_file_slice(f)) for f in t.get_file_slices_as_of(a[0])]
    if m == "read_slices_between":
        r = t.create_file_group_reader_with_options()
        return [batch(r.read_file_slice(f)) for f in t.get_file_slices_between(a[0], a[1])]
    if m == "read_base_files":
        r = HudiFileGroupReader(a[0], a[1])
        return [batch(r.read_file_slice_by_base_file_path(f.base_file_relative_path())) for f in t.get_file_slices()]
    if m == "read_base_file":
        return batch(HudiFileGroupReader(a[0]).read_file_slice_by_base_file_path(a[1]))
    tl = t.get_timeline()
    if m in ("get_completed_commits", "get_completed_deltacommits", "get_completed_replacecommits",
             "get_completed_clustering_commits"):
        return [instant(i) for i in (getattr(tl, m)(desc=a[0]) if a[0] is not None else getattr(tl, m)())]
    if m == "instant_metadata":
        return [tl.get_instant_metadata_in_json(i) for i in tl.get_completed_commits()]
    if m in ("get_latest_commit_timestamp", "get_latest_avro_schema"):
        return getattr(tl, m)()
    if m == "get_latest_schema":
        return schema(tl.get_latest_schema())
    raise RuntimeError("unknown call " + m)


KW = {
    "get_file_slices": ["filters"], "get_file_slices_as_of": ["timestamp", "filters"],
    "get_file_slices_between": ["start_timestamp", "end_timestamp"], "get_file_slices_splits": ["n", "filters"],
    "get_file_slices_splits_as_of": ["n", "timestamp", "filters"], "read_snapshot": ["filters"],
    "read_snapshot_as_of": ["timestamp", "filters"], "read_incremental_records": ["start_timestamp", "end_timestamp"],
}


class Named:
    """Passes the arguments by name, as the package documents them."""

    def __init__(self, t):
        self.t = t

    def __getattr__(self, m):
        f = getattr(self.t, m)
        if m not in KW or not callable(f):
            return f
        return lambda *a, **k: f(**dict(zip(KW[m], a)), **k)


def guarded(f):
    try:
        return {"ok": f()}
    except BaseException as e:
        return {"err": str(e), "type": type(e).__module__ + "." + type(e).__name__, "is_exception": isinstance(e, Exception)}


def one(t, c):
    return guarded(lambda: call(Named(t) if c.get("kw") else t, c["m"], c["a"]))


def in_threads(t, c):
    """The same call from several Python threads on one table object, with a thread that only counts."""
    n, res, stop, beats = c["threads"], [], threading.Event(), [0]

    def beat():
        while not stop.is_set():
            beats[0] += 1
            time.sleep(0.0005)

    def work(i):
        res.append(one(t, c))

    b = threading.Thread(target=beat, daemon=True)
    b.start()
    ts = [threading.Thread(target=work, args=(i,)) for i in range(n)]
    [x.start() for x in ts]
    [x.join() for x in ts]
    stop.set()
    b.join()
    return {"each": res, "beats": beats[0]}


class S3(http.server.BaseHTTPRequestHandler):
    """Read-only S3 endpoint over a directory, served by a thread of this very interpreter."""
    protocol_version = "HTTP/1.1"

    def log_message(self, *a):
        pass

    def send(self, code, body, headers=()):
        self.send_response(code)
        for k, v in headers:
            self.send_header(k, v)
        self.send_header("Content-Length", str(len(body)))
        self.end_headers()
        if self.command != "HEAD":
            self.wfile.write(body)

    def do_GET(self):
        self.server.seen += 1
        u = urllib.parse.urlsplit(self.path)
        q = dict(urllib.parse.parse_qsl(u.query, keep_blank_values=True))
        root = self.server.root
        key = urllib.parse.unquote(u.path).split("/", 2)
        key = key[2] if len(key) > 2 else ""
        if "list-type" in q:
            pre, objs, dirs = q.get("prefix", ""), [], set()
            for d, _, fs in os.walk(root):
                for f in fs:
                    k = os.path.relpath(os.path.join(d, f), root)
                    if not k.startswith(pre):
                        continue
                    rest = k[len(pre):]
                    if "delimiter" in q and "/" in rest:
                        dirs.add(pre + rest.split("/", 1)[0] + "/")
                    else:
                        objs.append((k, os.path.getsize(os.path.join(d, f))))
            x = lambda s: s.replace("&", "&amp;").replace("<", "&lt;").replace(">", "&gt;")
            b = '<?xml version="1.0" encoding="UTF-8"?><ListBucketResult>'
            for k, n in sorted(objs):
                b += f"<Contents><Key>{x(k)}</Key><LastModified>2024-01-01T00:00:00.000Z</LastModified><ETag>e</ETag><Size>{n}</Size></Contents>"
            for p in sorted(dirs):
                b += f"<CommonPrefixes><Prefix>{x(p)}</Prefix></CommonPrefixes>"
            self.send(200, (b + "</ListBucketResult>").encode())
            return
        p = os.path.join(root, key)
        if not os.path.isfile(p):
            self.send(404, b"<Error><Code>NoSuchKey</Code></Error>")
            return
        data = open(p, "rb").read()
        h = [("ETag", '"e"'), ("Last-Modified", "Mon, 01 Jan 2024 00:00:00 GMT")]
        r = self.headers.get("Range")
        if r:
            a, b = r.split("=")[1].split("-")
            if a == "":
                a, b = len(data) - int(b), len(data) - 1
            a, b = int(a), min(int(b) if b != "" else len(data) - 1, len(data) - 1)
            self.send(206, data[a:b + 1], h + [("Content-Range", f"bytes {a}-{b}/{len(data)}")])
        else:
            self.send(200, data, h)

    do_HEAD = do_GET


def served(req):
    srv = http.server.ThreadingHTTPServer(("127.0.0.1", 0), S3)
    srv.daemon_threads = True
    srv.root, srv.seen = req["root"], 0
    threading.Thread(target=srv.serve_forever, daemon=True).start()
    o = {"aws_endpoint": f"http://127.0.0.1:{srv.server_port}", "aws_allow_http": "true", "aws_access_key_id": "a",
         "aws_secret_access_key": "b", "aws_region": "us-east-1"}
    try:
        c = dict(req["open"])
        c["storage" if c["via"] != "ctor" else "options"] = o
        t = open_table(c)
        return {"results": [one(t, c) for c in req["calls"]], "seen": srv.seen}
    finally:
        srv.shutdown()
        srv.server_close()


def handle(req):
    if "served" in req:
        return guarded(lambda: served(req))
    t = guarded(lambda: open_table(req["open"]))
    if "err" in t:
        return {"open": t}
    t = t["ok"]
    return {"open": {"ok": None}, "results": [in_threads(t, c) if c.get("threads") else one(t, c) for c in req["calls"]]}


def tame(x):
    return x


for line in sys.stdin:
    r = handle(json.loads(line))
    out.write(json.dumps(r) + "\n")
    out.flush()
