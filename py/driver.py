# Runs a list of operations against the real Python binding and prints one JSON
# result per operation, in the format of the Rust driver.
import copy
import json
import os
import pickle
import struct
import sys
import threading

sys.path.insert(0, os.environ["TGX_PYMOD"])
import tokengeex  # noqa: E402
from tokengeex import Tokenizer  # noqa: E402


def bits(x):
    return struct.pack(">d", x).hex()


def dump(t):
    n = t.base_vocab_size()
    vocab = []
    for i in range(n):
        v, s = t.id_to_base_token(i)
        vocab.append([bytes(v).hex(), bits(s)])
    return {
        "vocab": vocab,
        "special": t.special_tokens(),
        "sizes": [t.vocab_size(), t.base_vocab_size(), t.special_vocab_size()],
    }


def hexed(v):
    return None if v is None else bytes(v).hex()


AT = [0]
LOCK = threading.Lock()


def locked(slots, o):
    with LOCK:
        AT[0] += 1
        at = AT[0]
        return dict(attempt(slots, o), at=at)


def par(slots, o):
    out = [[] for _ in o["threads"]]

    def client(ops, out):
        for x in ops:
            out.append(locked(slots, x) if o.get("lock") else attempt(slots, x))

    threads = [threading.Thread(target=client, args=a) for a in zip(o["threads"], out)]
    for t in threads:
        t.start()
    for t in threads:
        t.join()
    return out


def run(slots, o):
    op = o["op"]
    s = o.get("slot", 0)
    if op == "load":
        slots[s] = Tokenizer.from_file(o["path"])
        return True
    if op == "from_str":
        slots[s] = Tokenizer.from_str(o["json"])
        return True
    if op == "load_pickle":
        with open(o["path"], "rb") as f:
            slots[s] = pickle.load(f)
        return True
    t = slots.get(o.get("from", s))
    if t is None:
        raise Empty
    if op == "restring":
        slots[s] = Tokenizer.from_str(t.to_string())
        return True
    if op == "copy":
        slots[s] = copy.deepcopy(t) if o.get("deep") else copy.copy(t)
        return True
    if op == "repickle":
        slots[s] = pickle.loads(pickle.dumps(t, protocol=o.get("proto", 4)))
        return True
    if op == "save_pickle":
        with open(o["path"], "wb") as f:
            pickle.dump(t, f, protocol=o.get("proto", 4))
        return True
    if op == "save":
        t.save(o["path"])
        return True
    if op == "dump":
        return dump(t)
    if op == "to_string":
        return t.to_string()
    if op in ("encode", "encode_ordinary"):
        return getattr(t, op)(o["text"], o.get("p", 0.0))
    if op in ("encode_batch", "encode_ordinary_batch"):
        return getattr(t, op)(o["texts"], o.get("p", 0.0))
    if op == "decode":
        return t.decode(o["ids"], o["special"])
    if op == "decode_batch":
        return t.decode_batch(o["ids"], o["special"])
    if op == "add_special":
        t.add_special_tokens(o["tokens"])
        return True
    if op == "repeat":
        one = t.encode_ordinary if o.get("ordinary") else t.encode
        return [one(o["text"], o["p"]) for _ in range(o["n"])]
    if op in ("token_to_id", "base_token_to_id"):
        return getattr(t, op)(bytes.fromhex(o["token"]))
    if op == "special_token_to_id":
        return t.special_token_to_id(o["token"])
    if op == "id_to_token":
        return hexed(t.id_to_token(o["id"]))
    if op == "id_to_base_token":
        v = t.id_to_base_token(o["id"])
        return None if v is None else [hexed(v[0]), bits(v[1])]
    if op in ("id_to_special_token", "is_special", "is_base"):
        return getattr(t, op)(o["id"])
    if op == "sizes":
        return [t.vocab_size(), t.base_vocab_size(), t.special_vocab_size()]
    if op == "special_tokens":
        return t.special_tokens()
    if op == "prefix":
        return t.common_prefix_search(o["text"])
    raise RuntimeError("unknown operation " + op)


class Empty(Exception):
    pass


def attempt(slots, o):
    try:
        return {"ok": run(slots, o)}
    except Empty:
        return {"err": "empty slot"}
    except BaseException as e:  # a Rust panic is a BaseException
        k = type(e).__name__
        if k == "PanicException":
            return {"panic": str(e)}
        # an exception the module does not export cannot be caught by name
        own = getattr(tokengeex, "TokenGeeXError", ())
        kind = "tokengeex" if isinstance(e, own) else "os" if isinstance(e, OSError) else k
        return {"err": kind, "msg": str(e)}


def main():
    with open(sys.argv[1]) as f:
        sc = json.load(f)
    slots = {}
    for o in sc["ops"]:
        r = {"par": par(slots, o)} if o["op"] == "par" else attempt(slots, o)
        sys.stdout.write(json.dumps({"r": r}) + "\n")
        sys.stdout.flush()


main()
