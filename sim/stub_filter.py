"""A filter with known verdicts for the pipeline checks: decides a machine by
its name and --salt.  --lose drops a record, --twice repeats one, --fail-at stops
with an error after that many records."""
import argparse, os, sys, zlib
from pathlib import Path
if __name__ == "__main__": sys.path.insert(0, os.environ["BBSIM_CODE"])
KINDS = ["unknown", "unknown", "unknown", "halt.small", "halt.large", "halt.unk", "qhalt.small", "qhalt.large", "qhalt.unk", "infinite"]
def kind(machine, salt): return KINDS[zlib.crc32(("%s/%s" % (salt, machine)).encode()) % len(KINDS)]
def decide(machine, salt, status, set_big_int, inf_reason):
    k = kind(machine, salt)
    h, q = status.halt_status, status.quasihalt_status
    if k == "unknown": return k
    h.is_decided = True; q.is_decided = True
    if k.startswith("halt"):
        h.is_halting = True
        if k != "halt.unk": set_big_int(h.halt_steps, 999 if k == "halt.small" else 1000); set_big_int(h.halt_score, 3)
    else:
        h.inf_reason = inf_reason
        if k.startswith("qhalt"):
            q.is_quasihalting = True
            if k != "qhalt.unk": set_big_int(q.quasihalt_steps, 999 if k == "qhalt.small" else 1000)
    return k
def main():
    import IO, Halting_Lib, io_pb2
    p = argparse.ArgumentParser()
    p.add_argument("--infile", type=Path); p.add_argument("--outfile", type=Path)
    p.add_argument("--salt", default="0"); p.add_argument("--lose", type=int, default=-1); p.add_argument("--twice", type=int, default=-1); p.add_argument("--fail-at", type=int, default=-1)
    a = p.parse_args()
    with IO.Proto.Writer(a.outfile) as w:
        i = -1
        with IO.Reader(a.infile) as r:
            for i, rec in enumerate(r):
                if i == a.fail_at: raise SystemExit(3)
                decide(rec.tm().ttable_str(), a.salt, rec.proto.status, Halting_Lib.set_big_int, io_pb2.INF_CTL)
                if i != a.lose: w.write_record(rec)
                if i == a.twice: w.write_record(rec)
            if a.fail_at == i + 1: raise SystemExit(3)
if __name__ == "__main__": main()
