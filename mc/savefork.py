"""Runs under LD_PRELOAD of mc/faults.c: one save request per forked process, with faults. Requests and results are JSON lines."""

import ctypes
import json
import os
import shutil
import signal
import sys


class Entry(ctypes.Structure):
    _fields_ = [("op", ctypes.c_char * 16), ("path", ctypes.c_char * 256), ("size", ctypes.c_long), ("ino", ctypes.c_long), ("done", ctypes.c_long)]


def main():
    from mc import files, standins

    standins.no_typechecks()
    standins.quiet()
    from mc.checks import c31, c32

    c31.tree = c32.tree

    shim = ctypes.CDLL(None)
    shim.faults_entry.restype = ctypes.POINTER(Entry)
    shim.faults_init()
    area = c31.area = files.Area()
    out = os.fdopen(os.dup(1), "w")
    devnull = os.open(os.devnull, os.O_WRONLY)
    os.dup2(devnull, 1)
    os.dup2(devnull, 2)

    def look():
        return {k: v if v is None else v.decode("latin-1") for k, v in area.look().items()}

    def save(manager, r):
        try:
            res = c31.send(manager, r["folder"], r["name"], r["flags"], r["tree"])[1]
            path = os.path.relpath(res.file_path, area.root) if res.file_path else ""
            return {"success": bool(res.success), "message": res.error_message, "path": path}
        except Exception as ex:
            return {"exception": repr(ex)}

    def child(work):
        r, w = os.pipe()
        pid = os.fork()
        if pid == 0:
            try:
                signal.alarm(20)
                os.close(r)
                data = json.dumps(work()).encode()
                while data:
                    data = data[os.write(w, data):]
                os._exit(0)
            finally:
                os._exit(98)
        os.close(w)
        data = b""
        while True:
            part = os.read(r, 1 << 16)
            if not part:
                break
            data += part
        os.close(r)
        _, status = os.waitpid(pid, 0)
        code = os.waitstatus_to_exitcode(status)
        return code, json.loads(data) if code == 0 else None

    def lose(log):
        """A power failure: what was not synchronised is gone."""
        durable = {}
        for e in log:
            if e["op"] in ("write", "open-trunc", "truncate") and e["done"] >= 0:
                durable.setdefault(e["ino"], 0)
            elif e["op"] == "fsync" and e["done"] == 0:
                durable[e["ino"]] = e["size"]
        for where, _, names in os.walk(area.root):
            for n in names:
                path = os.path.join(where, n)
                st = os.stat(path)
                if st.st_ino in durable and st.st_size > durable[st.st_ino]:
                    os.truncate(path, durable[st.st_ino])

    try:
        for line in sys.stdin:
            job = json.loads(line)
            area.fresh(job["files"])
            manager = c31.manager()
            result = {}

            def work():
                shim.faults_arm((area.root + "/").encode())
                for k, kind, arg in job["plan"]:
                    shim.faults_add(k, kind, ctypes.c_long(arg))
                answer = save(manager, job["request"])
                shim.faults_disarm()
                return {"answer": answer, "files": look(), "again": save(manager, job["again"]), "at last": look()}

            code, got = child(work)
            n = shim.faults_count()
            log = []
            for i in range(n):
                e = shim.faults_entry(i).contents
                log.append({"op": e.op.decode(), "path": os.path.relpath(e.path.decode(), area.root), "size": e.size, "ino": e.ino, "done": e.done})
            if code == 0:
                result.update(got)
            else:
                if job.get("power"):
                    lose(log)
                result.update({"crash": code, "files": look()})
                code, got = child(lambda: {"again": save(manager, job["again"]), "at last": look()})
                result.update(got or {"again": {"exception": f"exit {code}"}, "at last": look()})
            result["log"] = [(e["op"], e["path"], e["size"], e["done"]) for e in log]
            out.write(json.dumps(result) + "\n")
            out.flush()
    finally:
        shutil.rmtree(area.top, ignore_errors=True)


if __name__ == "__main__":
    main()
