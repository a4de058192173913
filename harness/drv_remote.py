"""Real RemoteOptimizer against a scripted HTTP server on the loopback interface."""
import time as _time
_time.sleep = lambda *a, **k: None        # before hadar: the pause between two polls
from hdutil import *
import threading, io
from http.server import BaseHTTPRequestHandler, ThreadingHTTPServer
from urllib.parse import urlsplit, parse_qs

EXTRA = 20


class Room:
    """One conversation at a time, addressed by URL prefix."""
    def __init__(self): self.lock = threading.Lock(); self.cur = None


ROOMS = {}


def canon(x): return json.dumps(x, sort_keys=True)


class H(BaseHTTPRequestHandler):
    def log_message(self, *a): pass
    def reply(self, code, body):
        b = body.encode()
        self.send_response(code); self.send_header("Content-Length", str(len(b))); self.end_headers(); self.wfile.write(b)
    def any(self, method):
        n = int(self.headers.get("Content-Length") or 0)
        data = self.rfile.read(n) if n else b""
        u = urlsplit(self.path)
        parts = u.path.split("/api/v1/", 1)
        room = ROOMS.get(parts[0])
        if room is None: return self.reply(400, "?")
        with room.lock:
            c = room.cur
            q = parse_qs(u.query, keep_blank_values=True)
            rest = parts[1] if len(parts) > 1 else ""
            e = {"kind": "other", "token": q.get("token") == [c["token"]], "job": False, "body": False, "path": method + " " + self.path}
            if method == "POST" and rest == "study":
                e["kind"] = "submit"
                try: e["body"] = canon(json.loads(data)) == c["doc"]
                except ValueError: pass
            elif method == "GET" and rest.startswith("result/"):
                e["kind"] = "ask"; e["job"] = rest[7:] == str(c["job"])
            k = len(c["log"]); c["log"].append(e)
            if k < len(c["script"]): code, body = answer(c, c["script"][k], k)
            else: code, body = 500, "over"
            if k > len(c["script"]) + EXTRA * 10: os._exit(9)
        self.reply(code, body)
    def do_POST(self): self.any("POST")
    def do_GET(self): self.any("GET")
    def do_PUT(self): self.any("PUT")
    def do_DELETE(self): self.any("DELETE")


def answer(c, a, k):
    def doc(st):
        d = {"job": c["job"], "status": st, "progress": c["progress"][k % len(c["progress"])]}
        if st == "TERMINATED": d["result"] = c["result"]
        if st == "ERROR": d["message"] = c["message"]
        if c["also"] and st == "ERROR": d["result"] = c["result"]          # what there is, next to the failure
        if c["also"] and st == "TERMINATED": d["message"] = c["message"]
        return json.dumps(d)
    if a["code"] == 200: return 200, doc(a["status"])
    return a["code"], {"text": "<html>broken</html>", "": "", "done": doc("TERMINATED"), "queued": doc("QUEUED"), "failed": doc("ERROR")}[a["body"]]


def proj(res): return canon([structure(res), matrices(res)])


def conversation(room, opt, token, job):
    st = build(job["sd"])
    want = result_of(job["sd"], job["O"])
    c = {"script": job["script"], "token": token, "job": job["job"], "doc": canon(json.loads(json.dumps(st.to_json()))), "log": [],
         "result": want.to_json(), "message": job["message"], "progress": job["progress"], "also": job["also"]}
    want = proj(want)
    with room.lock: room.cur = c
    before = canon(project(st))
    o = {"kind": "raise", "same": False, "value": False, "io": False, "says": False, "text": ""}
    try:
        r = opt.solve(study=st)
        o["kind"] = "result"
        try: o["same"] = proj(r) == want
        except Exception as e: o["text"] = exc(e)
    except Exception as e:
        o.update(value=isinstance(e, ValueError), io=isinstance(e, IOError), says=job["message"] in str(e), text=exc(e))
    o["intact"] = canon(project(st)) == before
    with room.lock: log = list(c["log"])
    return {"id": job["id"], "script": job["script"], "log": log[:len(job["script"]) + EXTRA], "out": o}


def handler(d):
    sys.stdout = io.StringIO()
    srv = ThreadingHTTPServer(("127.0.0.1", 0), H); srv.daemon_threads = True
    threading.Thread(target=srv.serve_forever, daemon=True).start()
    base = "http://127.0.0.1:%d" % srv.server_port
    out, errs = [], []
    def session(s):
        try:
            room = ROOMS[s["prefix"]] = Room()
            opt = hd.RemoteOptimizer(base + s["prefix"], s["token"]) if s["token"] is not None else hd.RemoteOptimizer(base + s["prefix"])
            tok = s["token"] if s["token"] is not None else ""
            for j in s["jobs"]: out.append(conversation(room, opt, tok, j))
        except Exception:
            errs.append(traceback.format_exc())
    # sessions of one wave run at the same time
    for wave in d["waves"]:
        th = [threading.Thread(target=session, args=(s,)) for s in wave]
        for t in th: t.start()
        for t in th: t.join()
    if errs: raise RuntimeError(errs[0])
    return {"recs": out}


main(handler)
