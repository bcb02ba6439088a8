"""Scheduler-side half of the MPI model: matching rules of the communication operations.

The rules follow the MPI standard: the k-th collective call of every member of a communicator belongs together, must
be the same operation with the same root, and a member may return as soon as the data it needs are there ("eager")
or only when everybody has arrived ("sync": the standard allows both).
"""
import pickle

import numpy as np


class Mismatch(Exception):
    """Members of a communicator disagree about the collective they are in."""


LATE = object()


class Slot:
    __slots__ = ("kind", "root", "op", "contrib", "late", "created", "sig")

    def __init__(self, kind, root, op):
        self.kind, self.root, self.op = kind, root, op
        self.contrib = {}
        self.late = {}
        self.created = None


class CommInfo:
    def __init__(self, cid, ranks):
        self.cid = cid
        self.ranks = tuple(ranks)
        self.seq = {r: 0 for r in ranks}
        self.slots = {}
        self.graph = {}
        self.msgs = []  # undelivered point-to-point messages, in posting order
        self.recvs = []  # posted receives, in posting order


class Pending:
    """An operation that a rank is blocked in."""

    __slots__ = ("rank", "op", "slot", "comm")

    def __init__(self, rank, op, slot=None, comm=None):
        self.rank, self.op, self.slot, self.comm = rank, op, slot, comm

    def describe(self):
        o = self.op
        if o["t"] == "coll":
            return f"{o['kind']}@{o['comm']}" + (f" root={o['root']}" if o["root"] is not None else "")
        if o["t"] in ("wait", "test"):
            return f"{o['t']} {o['req']}"
        if o["t"] == "fs":
            return f"{o['kind']}:{o['desc']}"
        return o["t"]


class Engine:
    def __init__(self, n, sync=False, flush=None):
        self.n = n
        self.sync = sync
        self.flush = flush  # callback(world rank, request id) -> data, for late send buffers
        self.comms = {"world": CommInfo("world", range(n))}
        for r in range(n):
            self.comms[("self", r)] = CommInfo(("self", r), [r])
        self.reqs = {}  # request id -> dict
        self.next_cid = 0

    # -- posting ------------------------------------------------------------------------------------------------
    def post(self, rank, op):
        t = op["t"]
        if t == "coll":
            ci = self.comms[op["comm"]]
            if rank not in ci.seq:
                raise Mismatch(f"rank {rank} is not a member of communicator {op['comm']}")
            k = ci.seq[rank]
            ci.seq[rank] += 1
            slot = ci.slots.get(k)
            sig = (op["kind"], op["root"], op["op"])
            if slot is None:
                slot = ci.slots[k] = Slot(op["kind"], op["root"], op["op"])
                slot.sig = sig
            elif slot.sig != sig:
                raise Mismatch(
                    f"collective #{k} on {op['comm']}: rank {rank} calls {sig}, others called {slot.sig}"
                )
            crank = ci.ranks.index(rank)
            slot.contrib[crank] = op["data"]
            if op.get("late"):
                slot.late[crank] = op["req"]
            p = Pending(rank, op, slot, ci)
            if op["nb"]:
                self.reqs[op["req"]] = {"kind": "coll", "slot": slot, "comm": ci, "rank": rank, "crank": crank}
            return p
        if t == "send":
            ci = self.comms[op["comm"]]
            m = {
                "src": ci.ranks.index(rank),
                "dst": op["dest"],
                "tag": op["tag"],
                "obj": op["obj"],
                "data": op["data"],
                "late": op["late"],
                "req": op["req"],
                "rank": rank,
                "matched": False,
                "sync": op.get("sync", False),
            }
            ci.msgs.append(m)
            self.reqs[op["req"]] = {"kind": "send", "msg": m, "rank": rank}
            self._match(ci)
            return Pending(rank, op, None, ci)
        if t == "recv":
            ci = self.comms[op["comm"]]
            r = {"dst": ci.ranks.index(rank), "source": op["source"], "tag": op["tag"], "msg": None, "rank": rank}
            ci.recvs.append(r)
            self.reqs[op["req"]] = {"kind": "recv", "recv": r, "rank": rank}
            self._match(ci)
            return Pending(rank, op, None, ci)
        return Pending(rank, op)

    def _match(self, ci):
        for r in list(ci.recvs):
            for m in ci.msgs:
                if m["dst"] != r["dst"]:
                    continue
                if r["source"] not in (-1, m["src"]) or r["tag"] not in (-1, m["tag"]):
                    continue
                r["msg"] = m
                m["matched"] = True
                ci.msgs.remove(m)
                ci.recvs.remove(r)
                break

    # -- completion conditions ----------------------------------------------------------------------------------
    def _slot_ready(self, slot, ci, crank):
        if self.sync:
            return len(slot.contrib) == len(ci.ranks)
        k = slot.kind.lower()
        if k in ("bcast", "scatter"):
            return slot.root in slot.contrib
        if k in ("gather", "reduce"):
            return crank != slot.root or len(slot.contrib) == len(ci.ranks)
        if k in ("scan", "exscan"):
            return all(i in slot.contrib for i in range(crank + 1))
        if k.startswith("neighbor"):
            return all(s in slot.contrib for s in ci.graph[crank][0])
        return len(slot.contrib) == len(ci.ranks)

    def _req_ready(self, rid):
        q = self.reqs[rid]
        if q["kind"] == "coll":
            return self._slot_ready(q["slot"], q["comm"], q["crank"])
        if q["kind"] == "send":
            return q["msg"]["matched"] or not (self.sync or q["msg"]["sync"])
        return q["recv"]["msg"] is not None

    def immediate(self, p):
        """Posting a non-blocking operation returns at once: not a scheduling decision."""
        o = p.op
        return o["t"] in ("send", "recv") or (o["t"] == "coll" and o["nb"])

    def ready(self, p):
        o = p.op
        t = o["t"]
        if self.immediate(p):
            return True
        if t == "coll":
            return self._slot_ready(p.slot, p.comm, p.comm.ranks.index(p.rank))
        if t == "wait":
            return self._req_ready(o["req"])
        if t == "mpi_abort":
            return True
        return True  # fs, test

    # -- completion ---------------------------------------------------------------------------------------------
    def complete(self, p):
        o = p.op
        t = o["t"]
        if t == "coll":
            if o["nb"]:
                return None
            return self._slot_value(p.slot, p.comm, p.comm.ranks.index(p.rank))
        if t in ("send", "recv"):
            return None
        if t == "wait":
            return self.req_value(o["req"])
        if t == "test":
            return self.req_value(o["req"]) if self._req_ready(o["req"]) else None
        return None

    def req_value(self, rid):
        """(data, status) of a completed request"""
        q = self.reqs[rid]
        if q["kind"] == "coll":
            return (self._slot_value(q["slot"], q["comm"], q["crank"]), None)
        if q["kind"] == "send":
            m = q["msg"]
            if m["late"] and m["data"] is None:
                m["data"] = self.flush(m["rank"], m["req"])
            return (None, None)
        m = q["recv"]["msg"]
        if m["late"] and m["data"] is None:
            m["data"] = self.flush(m["rank"], m["req"])
        n = len(m["data"])
        return (m["data"], (m["src"], m["tag"], n))

    def _get(self, slot, ci, crank):
        if crank in slot.late and slot.contrib[crank] is None:
            slot.contrib[crank] = self.flush(ci.ranks[crank], slot.late[crank])
        return slot.contrib[crank]

    def _slot_value(self, slot, ci, crank):
        k = slot.kind
        n = len(ci.ranks)
        get = lambda i: self._get(slot, ci, i)
        kl = k.lower()
        if kl == "barrier":
            return None
        if kl == "bcast":
            return get(slot.root)
        if kl == "scatter":
            return get(slot.root)[crank]
        if kl == "gather":
            if crank in slot.late:
                get(crank)
            return [get(i) for i in range(n)] if crank == slot.root else None
        if kl == "allgather":
            return [get(i) for i in range(n)]
        if k == "Allgather_flat":
            return np.concatenate([get(i) for i in range(n)])
        if kl == "alltoall":
            return [get(i)[crank] for i in range(n)]
        if k in ("allreduce", "reduce", "scan", "exscan"):
            if k == "reduce" and crank != slot.root:
                return None
            last = n if k in ("allreduce", "reduce") else (crank + 1 if k == "scan" else crank)
            return self._reduce_obj(slot, [get(i) for i in range(last)])
        if k in ("Allreduce", "Reduce"):
            if k == "Reduce" and crank != slot.root:
                return None
            return self._reduce_buf(slot, [get(i) for i in range(n)])
        if k in ("split", "dup", "graph"):
            return self._make_comm(slot, ci, crank, [get(i) for i in range(n)])
        if kl in ("neighbor_alltoall", "neighbor_allgather"):
            return self._neighbor(slot, ci, crank, get)
        raise NotImplementedError(k)

    def _reduce_obj(self, slot, blobs):
        from mpi4py import MPI

        if not blobs:
            return None
        op = MPI._op_by_name(slot.op)
        acc = pickle.loads(blobs[0])
        for b in blobs[1:]:
            acc = op.fn(acc, pickle.loads(b))
        return pickle.dumps(acc, protocol=5)

    def _reduce_buf(self, slot, arrs):
        from mpi4py import MPI

        op = MPI._op_by_name(slot.op)
        if len({a.size for a in arrs}) != 1:
            raise Mismatch(f"{slot.kind}: contributions of different sizes {[a.size for a in arrs]}")
        if len({a.dtype for a in arrs}) != 1:
            raise Mismatch(f"{slot.kind}: contributions of different types {[str(a.dtype) for a in arrs]}")
        acc = arrs[0].copy()
        for a in arrs[1:]:
            acc = op.ufn(acc, a)
        return acc.astype(arrs[0].dtype)

    def _make_comm(self, slot, ci, crank, contribs):
        if slot.created is None:
            slot.created = {}
            if slot.kind == "split":
                groups = {}
                for i, (color, key) in enumerate(contribs):
                    if color == -32766:
                        slot.created[i] = None
                        continue
                    groups.setdefault(color, []).append((key, i))
                for color in sorted(groups):
                    members = [i for _, i in sorted(groups[color])]
                    cid = f"c{self.next_cid}"
                    self.next_cid += 1
                    ranks = tuple(ci.ranks[i] for i in members)
                    self.comms[cid] = CommInfo(cid, ranks)
                    for i in members:
                        slot.created[i] = (cid, ranks)
            else:
                cid = f"c{self.next_cid}"
                self.next_cid += 1
                new = CommInfo(cid, ci.ranks)
                self.comms[cid] = new
                if slot.kind == "graph":
                    for i, sd in enumerate(contribs):
                        new.graph[i] = sd
                    for i, (src, _) in enumerate(contribs):
                        for s in src:
                            if src.count(s) != contribs[s][1].count(i):
                                raise Mismatch(f"distributed graph: rank {i} expects data from {s}, which does not send any")
                    for i, (_, dst) in enumerate(contribs):
                        for d in dst:
                            if dst.count(d) != contribs[d][0].count(i):
                                raise Mismatch(f"distributed graph: rank {i} sends to {d}, which does not expect it")
                else:
                    new.graph = dict(ci.graph)
                for i in range(len(ci.ranks)):
                    slot.created[i] = (cid, ci.ranks)
        return slot.created[crank]

    def _neighbor(self, slot, ci, crank, get):
        src, _ = ci.graph[crank]
        seen = {}
        out = []
        for s in src:
            occ = seen.get(s, 0)
            seen[s] = occ + 1
            data = get(s)
            if slot.kind.lower().endswith("allgather"):
                out.append(data)
                continue
            dst = ci.graph[s][1]
            idx = [j for j, d in enumerate(dst) if d == crank][occ]
            if slot.kind[0] == "n":
                out.append(data[idx])
            else:
                n = data.size // len(dst)
                out.append(data[idx * n : (idx + 1) * n])
        if crank in slot.late:
            get(crank)
        if slot.kind[0] == "n":
            return out
        if len({o.size for o in out}) > 1:
            raise Mismatch(f"{slot.kind}: neighbours exchange blocks of different sizes {[o.size for o in out]}")
        mine = get(crank)
        if slot.kind == "Neighbor_alltoall" and out and mine is not None and mine.size // len(ci.graph[crank][1]) != out[0].size:
            raise Mismatch(f"{slot.kind}: block sizes differ between neighbours")
        return np.concatenate(out)
