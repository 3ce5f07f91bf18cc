"""Behaviours of KemSym (TLC -simulate) as scripts for the real code; exhaustive runs of KemSym."""
import hashlib, json, os
from vlib import *

UNIT = dict({a: 32 for a in ML}, xwing=32, **FIELD)


def parts(kind, a):
    """(offset, length) of the parts of an encoding, in bytes"""
    if a in ML:
        k = K[a]
        ls = {"dk": [384 * k, 384 * k, 32, 32, 32], "ek": [384 * k, 32], "ct": [32 * DU[a] * k, CTS[a] - 32 * DU[a] * k]}[kind]
    elif a == "xwing":
        ls = {"dk": [32], "ek": [1152, 32, 32], "ct": [960, 128, 32]}[kind]
    else:
        ls = [32 if a == "x25519" else 2 * FIELD[a] + 1]
    out, o = [], 0
    for l in ls:
        out.append((o, l))
        o += l
    return out


def model(c, algs, calls, loads, streams, record=False):
    p = os.path.join(c.work, "model.json")
    with open(p, "w") as fh:
        json.dump({"algs": algs, "calls": calls, "loads": loads, "record": record, "streams": streams}, fh)
    return p


def streams(*ls):
    """generators: (name of the data, limit in draws and, for one that recovers, in the end)"""
    return [{"data": ["%s%d" % (x[0], i) for i in range(40)], "limit": x[1], "after": x[-1]} for x in ls]


def exhaustive(c, runs, mod="KemModel"):
    """every behaviour of KemSym within bounds satisfies the system's properties"""
    for algs, calls, loads, st in runs:
        m = model(c, algs, calls, loads, st)
        t0 = time.time()
        rc, out, s = tlc(mod + ".tla", mod + ".cfg", c.work, env={"MODEL": m}, heap="16g")
        if rc != 0:
            raise ToolError("%s %s: %s" % (mod, algs, out[-3000:]))
        c.cov["states"] += s[1]
        c.cov["transitions"] += s[0]
        c.cov["model_states"] = c.cov.get("model_states", 0) + s[1]
        log(mod + " %s calls=%d forged=%d: %d states, %.1fs" % (",".join(algs), calls, loads, s[1], time.time() - t0))


def simulate(c, algs, calls, loads, st, num):
    m = model(c, algs, calls, loads, st, True)
    cfg = os.path.join(c.work, "Sim.cfg")
    with open(os.path.join(SPEC, "KemModel.cfg")) as fh:
        txt = fh.read()
    txt = re.sub(r"PROPERTIES.*\n", "", txt)
    txt = re.sub(r"INVARIANTS.*\n", "INVARIANTS Dump\n", txt)
    with open(cfg, "w") as fh:
        fh.write(txt)
    rc, out, s = tlc("KemModel.tla", cfg, c.work, env={"MODEL": m}, workers=1, heap="4g",
                     extra=["-simulate", "num=%d" % num, "-depth", str(calls + 3), "-seed", str(SEED * 7919 + c.rnd.randrange(10 ** 6))])
    bs = []
    for line in out.splitlines():
        if line.startswith('"BEHAVIOUR '):
            bs.append(json.loads(json.loads(line)[10:]))
    if not bs:
        raise ToolError("no behaviours: " + out[-3000:])
    return bs


def replay(c, name, hist, st, erase=False):
    """one behaviour of the model as a script; erase: private keys are inspected as they go"""
    t = Trace(name)
    tag = "%s/%d/%s" % (c.pid, SEED, name)
    need = {}
    kind, alg = {}, {}
    gen = [{"pos": 0, "lim": s["limit"], "after": s["after"], "once": False, "bytes": b"", "dead": False, "cut": None, "name": s["data"]} for s in st]

    def draw(r, a, n):
        g = gen[r - 1]
        if g["dead"]:
            return False
        if g["pos"] + n > g["lim"] and g["after"] > g["lim"]:
            # fails once, after a part of what was asked for
            k = c.rnd.randrange(UNIT[a] * n)
            g["bytes"] += hashlib.shake_128(("%s/%s/part" % (tag, g["name"][g["pos"]])).encode()).digest(k)
            g["cut"], g["once"] = len(g["bytes"]), True
            g["pos"], g["lim"] = g["lim"], g["after"]
            return False
        if g["pos"] + n > g["lim"]:
            g["dead"] = True
            if g["once"]:
                return False
            g["cut"] = len(g["bytes"]) + c.rnd.randrange(UNIT[a] * n if a not in ML or n == 1 else 64)
            g["bytes"] += bytes(UNIT[a] * n)
            return False
        for i in range(n):
            u = UNIT[a]
            b = hashlib.shake_128(("%s/%s" % (tag, g["name"][g["pos"] + i])).encode()).digest(u)
            if a == "p521":
                b = b"\0" + b[1:]
            elif a in NIST:
                b = b[:1].replace(b"\xff", b"\x7f") + b[1:]
            g["bytes"] += b
        g["pos"] += n
        return True

    classes = []
    made = []           # handles in the order they are made
    via = {}            # a clone now and then takes the place of its original

    def H(h):
        n = "H%d" % h
        if h in kind and kind[h] != "ss" and not (kind[h] == "dk" and alg[h] in NIST) and c.rnd.random() < 0.15:
            via[h] = via.get(h, 0) + 1
            t("clone", "%sc%d" % (n, via[h]), n)
            return "%sc%d" % (n, via[h])
        return n

    for e in hist:
        op = e["op"]
        classes.append(op)
        if op in ("enc", "dec", "pub", "recode", "cast", "splice", "junk"):
            e = dict(e)
            for f in ("e", "d", "c", "src", "h1", "h2"):
                if f in e and e[f] in kind and not (op == "pub" and f == "e") and not (op in ("enc",) and f == "c"):
                    e["#" + f] = H(e[f])
        if op == "gen":
            a = e["alg"]
            t("gen", "H%d" % e["d"], "H%d" % e["e"], a, "R%d" % e["r"])
            if draw(e["r"], a, 2 if a in ML else 1):
                kind[e["d"]], kind[e["e"]] = "dk", "ek"
                alg[e["d"]] = alg[e["e"]] = a
        elif op == "enc":
            a = alg[e["e"]]
            t("enc", "H%d" % e["s"], "H%d" % e["c"], e["#e"], "R%d" % e["r"])
            if draw(e["r"], a, 2 if a == "xwing" else 1):
                kind[e["s"]], kind[e["c"]] = "ss", "ct"
                alg[e["s"]] = alg[e["c"]] = a
        elif op == "dec":
            t("dec", "H%d" % e["s"], e["#d"], e["#c"])
            kind[e["s"]], alg[e["s"]] = "ss", alg[e["d"]]
        elif op == "pub":
            t("pub", "H%d" % e["e"], e["#d"])
            kind[e["e"]], alg[e["e"]] = "ek", alg[e["d"]]
        elif op == "recode":
            t("recode", "H%d" % e["h"], e["#src"])
            kind[e["h"]], alg[e["h"]] = kind[e["src"]], alg[e["src"]]
        elif op == "drop":
            gone = erase and kind.get(e["h"]) == "dk"
            t((c.rnd.choice(["scan", "scan", "wipe"]) if alg[e["h"]] not in ML else "scan") if gone else "drop", "H%d" % e["h"])
            kind.pop(e["h"], None)
        elif op == "cast":
            t("cast", "H%d" % e["h"], e["#src"], e["kind"])
            kind[e["h"]], alg[e["h"]] = e["kind"], alg[e["src"]]
        elif op in ("splice", "junk"):
            src = e["h1"] if op == "splice" else e["src"]
            k, a = kind[src], alg[src]
            o, l = parts(k, a)[e["p"] - 1]
            if op == "splice":
                t("splice", "H%d" % e["h"], e["#h1"], o, l, e["#h2"], o)
            else:
                cnt = c.rnd.choice([1, 1, 2, 5])
                pos = c.rnd.sample(range(l), cnt)
                # (the top bit of an X25519 value is ignored)
                t("xor", "H%d" % e["h"], e["#src"],
                  ",".join("%d:%d" % (o + p, 1 << c.rnd.randrange(7) if p == l - 1 else c.rnd.randrange(1, 256)) for p in pos))
            kind[e["h"]], alg[e["h"]] = k, a
    # whatever is left is used: every private key on every ciphertext, all values compared
    live = lambda k: [h for h in kind if kind[h] == k]
    pairs = [(d, x) for d in live("dk") for x in live("ct") if alg[d] == alg[x]]
    n = 0
    for d, x in c.rnd.sample(pairs, min(len(pairs), 10)):
        n += 1
        t("dec", "F%d" % n, "H%d" % d, "H%d" % x)
        classes.append("dec")
    for k in ("ek", "ct", "dk"):
        hs = [h for h in live(k) if not (k == "dk" and (alg[h] == "xwing" or alg[h] in DH))]
        pairs = [(x, y) for x in hs for y in hs if x < y and alg[x] == alg[y]]
        for x, y in c.rnd.sample(pairs, min(len(pairs), 6)):
            t("eq", "H%d" % x, "H%d" % y)
            classes.append("eq")
    if erase:
        scans = []
        for d in live("dk"):
            a = alg[d]
            scans += ["H%d" % d] + ["H%dc%d" % (d, i + 1) for i in range(via.get(d, 0))]
            # other secrets under the same public part
            if a in ML or a == "xwing":
                for j, p in enumerate([0, 4] if a in ML else [0]):
                    o, l = parts("dk", a)[p]
                    t("xor", "V%d_%d" % (d, j), "H%d" % d, ",".join("%d:%d" % (o + x, c.rnd.randrange(1, 256)) for x in c.rnd.sample(range(l), min(l, 24))))
                    scans.append("V%d_%d" % (d, j))
            else:
                b = hashlib.shake_128(("%s/V%d" % (tag, d)).encode()).digest(UNIT[a])
                t("rng", "RV%d" % d, ((b"\0" + b[1:]) if a != "x25519" else b).hex())("gen", "V%d" % d, "VE%d" % d, a, "RV%d" % d)
                scans.append("V%d" % d)
        c.rnd.shuffle(scans)
        for h in scans:
            t(c.rnd.choice(["scan", "scan", "wipe"]) if all(alg[d] not in ML for d in alg) else "scan", h)
            classes.append("scan")
    head = []
    for i, g in enumerate(gen):
        b = g["bytes"]
        head.append("rng R%d %s" % (i + 1, b.hex() or "00") + (" %d" % g["cut"] if g["cut"] is not None else "") + (" once" if g["once"] else ""))
    t.lines = head + t.lines
    return t, classes


def modelled(c, exe, runs, plan, deep=()):
    """the properties on the model, exhaustively; then behaviours of the model on the real code"""
    exhaustive(c, runs)
    exhaustive(c, deep, "KemDeep")
    behaviours(c, plan, exe)


def behaviours(c, plan, exe, erase=False):
    """model behaviours, replayed and judged twice: byte by byte and relationally"""
    s = Script()
    seen = {}
    for algs, calls, loads, st, num in plan:
        for i, h in enumerate(simulate(c, algs, calls, loads, st, num)):
            t, cl = replay(c, "%s-model-%s-%d" % (c.pid, "+".join(algs), i), h, st, erase)
            s.traces.append(t)
            for x in cl:
                seen[x] = seen.get(x, 0) + 1
    c.cov["behaviours_replayed"] = c.cov.get("behaviours_replayed", 0) + len(s.traces)
    c.cov["behaviour_steps"] = dict(seen)
    c.conform(exe, s, tag="model")
    if not erase:
        c.conform(exe, s, tag="model-rel", module="RelTrace.tla", cfg="RelTrace.cfg")
