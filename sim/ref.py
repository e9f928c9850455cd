"""Independent reference model: Turing machines as tables, direct simulation,
tree-normal-form children.  Shares no code with /repo."""

def parse(s):
    """'1RB---_1LA1RZ' -> list of rows of (symbol, dir, state) / None; halt state = -1."""
    rows = s.strip().split("_")
    t = []
    for row in rows:
        r = []
        for i in range(0, len(row), 3):
            c = row[i:i + 3]
            if c == "---": r.append(None)
            else:
                st = ord(c[2]) - 65
                r.append((int(c[0]), 1 if c[1] == "R" else -1, st if 0 <= st < len(rows) else -1))
        t.append(r)
    return t

def show(t):
    return "_".join("".join("---" if c is None else "%d%s%s" % (c[0], "R" if c[1] == 1 else "L", "Z" if c[2] < 0 else chr(65 + c[2]))
                            for c in r) for r in t)

def run(t, max_steps):
    """Returns ('halt', steps, nonzeros, state, symbol) or ('run', steps). An undefined
    cell counts as a halting step that writes 1 and moves right."""
    tape = {}
    pos = state = steps = 0
    while steps < max_steps:
        sym = tape.get(pos, 0)
        c = t[state][sym]
        steps += 1
        if c is None: c = (1, 1, -1)
        if c[0]: tape[pos] = c[0]
        else: tape.pop(pos, None)
        pos += c[1]
        if c[2] < 0: return ("halt", steps, len(tape), state, sym)
        state = c[2]
    return ("run", steps)

def last_seen(t, max_steps):
    """state -> last step index (0-based) at which the machine was in it, within max_steps."""
    tape = {}
    pos = state = 0
    seen = {}
    for step in range(max_steps):
        seen[state] = step
        sym = tape.get(pos, 0)
        c = t[state][sym]
        if c is None or c[2] < 0: return seen
        if c[0]: tape[pos] = c[0]
        else: tape.pop(pos, None)
        pos += c[1]; state = c[2]
    return seen

def children(t, state, symbol, allow_no_halt):
    undefined = sum(c is None for r in t for c in r)
    if undefined <= 1 and not allow_no_halt: return []
    used = [c for r in t for c in r if c is not None]
    ns = min(len(t), max([c[2] for c in used] + [0]) + 2)
    nk = min(len(t[0]), max([c[0] for c in used] + [0]) + 2)
    out = []
    for s in range(ns):
        for k in range(nk):
            for d in ((-1, 1) if used else (1,)):
                n = [list(r) for r in t]
                n[state][symbol] = (k, d, s)
                out.append(n)
    return out

def blank(states, symbols, first_1rb):
    t = [[None] * symbols for _ in range(states)]
    if first_1rb: t[0][0] = (1, 1, 1)
    return t

def undo_halt(t, state, symbol):
    n = [list(r) for r in t]
    n[state][symbol] = None
    return n

def random_node(rng, states, symbols, depth, allow_no_halt=False, steps=3000):
    """Random descent in the tree of halting machines: a table with some cells defined."""
    t = blank(states, symbols, True)
    for _ in range(depth):
        r = run(t, steps)
        if r[0] != "halt": break
        ch = children(t, r[3], r[4], allow_no_halt)
        if not ch: break
        for _try in range(20):
            c = rng.choice(ch)
            if run(c, steps)[0] == "halt": t = c; break
        else: return c
    return t

def forever(t, max_steps):
    """(states visited in all, states visited for ever) if the machine is seen to repeat itself within
    max_steps: in place (Brent), or shifted, between two visits of new ground in the same state."""
    tape, pos, state = {}, 0, 0
    seen = {}
    mark, at, nxt = None, 0, 16
    lo = hi = 0
    recs = {1: [], -1: []}          # (step, state, pos, tape, extreme position on the far side since)
    for step in range(max_steps):
        c = t[state][tape.get(pos, 0)]
        if c is None or c[2] < 0: return None
        seen[state] = step
        if c[0]: tape[pos] = c[0]
        else: tape.pop(pos, None)
        pos += c[1]; state = c[2]
        now = step + 1
        if mark and mark[0] == state and mark[1] == pos and mark[2] == tape:
            return set(seen), {q for q, n in seen.items() if n >= at}
        if now >= nxt: mark, at, nxt = (state, pos, dict(tape)), now, nxt * 2
        for d in (1, -1):
            for r in recs[d]:
                if pos * d < r[4] * d: r[4] = pos
        d = 1 if pos > hi else -1 if pos < lo else 0
        lo, hi = min(lo, pos), max(hi, pos)
        if d:
            for r in recs[d][-12:]:
                if r[1] != state: continue
                off = pos - r[2]
                # ground behind, as far as it was visited since
                if all(r[3].get(x, 0) == tape.get(x + off, 0) for x in range(min(r[4], r[2]), max(r[4], r[2]) + 1)):
                    return set(seen), {q for q, n in seen.items() if n >= r[0]}
            recs[d].append([now, state, pos, dict(tape), pos])
            if len(recs[d]) > 24: del recs[d][0]
    return None
