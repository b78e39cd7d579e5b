#!/usr/bin/env python3
"""Source of properties.jsonl and MANIFEST.json (run: python3 props.py)."""
import json, os
HERE = os.path.dirname(os.path.abspath(__file__))
P = []      # properties in order
CL = {}     # claimed: id -> (technique, level, level_note)
NA = []     # (id, reason)

def prop(pid, title, statement, over, text, why, files, mech, state=None):
    d = dict(id=pid, title=title, statement=statement, quantifier=dict(over=over, text=text),
             why_tests_cant=why, anchors=dict(files=files, mechanism=[dict(name=n, where=w) for n, w in mech]))
    if state: d["anchors"]["state"] = [dict(name=n, meaning=m) for n, m in state]
    P.append(d)

def claim(pid, note, technique=None, level="proof"):
    CL[pid] = (technique or "contract-based deductive verification: pre/postconditions on the real functions, obligations discharged by CBMC", level, note)

T30 = "The unit tests run the microcode on sampled instructions and operands and see only the instruction's result."
F30 = ["src/model2030/cpu2030.c", "src/model2030/model2030.h"]
S30 = [("cpu_2030", "registers, latches, local storage and keys of the Model 30"), ("M", "main storage, one byte with parity per word")]

prop("C01", "Model 30 ALU computes what its control word orders",
     "In every un-stopped Model 30 machine cycle the ALU result equals the binary or packed-decimal sum, AND, OR or exclusive-or ordered by the control word over the gated operands, with the ordered complement and carry-in. The carry, zero and overflow status lines and the saved carry follow from that same result, and the result byte has odd parity unless the control word orders even parity.",
     ["inputs", "histories"], "every control word, operand pair, carry and status state; decimal claims over valid digits",
     T30 + " No test ranges over all operand pairs, digit pairs and carries.", F30,
     [("cycle_2030", "src/model2030/cpu2030.c: A/B gating, true/complement, adder, decimal correction")], S30)
claim("C01", "Postconditions of cycle_2030() for every control word and register state that satisfies the stated precondition (no trap, clock running, console idle); unbounded in values, the function's loops are fully unwound. Trusted: CBMC, the log/console stubs.")

prop("C02", "Model 30 cycles change exactly the registers they order",
     "A Model 30 machine cycle gates onto its two ALU input buses exactly the registers the control word selects, loads exactly the destination register it names with the ALU result, and leaves every other working register as it was. A register loaded from the ALU keeps odd parity unless even parity was ordered.",
     ["inputs", "histories"], "every control word and every register state of an un-stopped, un-trapped cycle",
     T30 + " A stray register write that the sampled instruction does not read back goes unseen.", F30,
     [("cycle_2030", "src/model2030/cpu2030.c: A-bus and B-bus source switches, destination switch, status field")], S30)
claim("C02", "As C01: postconditions of cycle_2030() over all control words and states; console typewriter interface assumed as a stub that returns arbitrary values.")

prop("C03", "Model 30 micro-branches go where the control word says",
     "The next micro-address of a Model 30 cycle is the ordered base, branch bits and module exactly as the control word and tested conditions determine, including interruption, timer, wrap and trap-return branches. It never leaves the 4096-word control store.",
     ["inputs", "histories"], "every control word, condition state, mask and interruption state",
     T30 + " Rare branch conditions (interruptions, wraps, channel returns) are not driven by tests.", F30,
     [("cycle_2030", "src/model2030/cpu2030.c: next-address computation")], S30)
claim("C03", "As C01; the control store word is arbitrary (the array read goes through a checked accessor inserted mechanically, which also proves the index in range).")

prop("C04", "Model 30 storage reads, writes, keys and limits are exact",
     "A Model 30 cycle delivers the addressed byte on a read, and changes at most the addressed byte of main or local storage and its storage key; every other byte and key stays as it was. A store whose key does not match the protection key leaves the byte unchanged, and no access ever reaches beyond the installed storage.",
     ["inputs", "configurations"], "every address, key, protection state, control word and installed size (8K and 64K on every run, 16K and 32K in the thorough tier)",
     "Tests use a few addresses in one 64K configuration and do not watch the rest of storage.", F30,
     [("cycle_2030", "src/model2030/cpu2030.c: storage read, write, key compare, address generation")], S30)
claim("C04", "Postconditions and memory-safety obligations of cycle_2030(), with an arbitrary ghost address for the frame claim.")

prop("C05", "Model 30 channel storage cycles move exactly one byte",
     "Each selector-channel storage access on the Model 30 uses the channel's data address, steps it by one in the commanded direction, counts down by one and stores or fetches exactly that byte. Input is stored only if the channel's key matches, the skip flag is off and the address exists; no other byte, key, CPU register or other channel's state changes, and the count reaching zero is recorded.",
     ["inputs", "histories", "schedules"], "every channel state, address, count, command, flag, key and installed size, for either channel and any interleaving with CPU cycles",
     "Tests exercise device transfers of a few blocks; they do not cover address wrap, size limits, key mismatch, skip or both channels competing.", F30,
     [("cycle_2030", "src/model2030/cpu2030.c: selector channel share cycle (read half, write half)")], S30)
claim("C05", "Postconditions of cycle_2030() for a cycle taken by a selector channel, both halves, both channels; device tag responses after the access are unconstrained.")

prop("C06", "Model 30 console store and display reach exactly what is dialled",
     "With the clock stopped, the Model 30 console's store order writes the data switches into exactly the main or local storage byte or register selected by the address and selector switches, and display shows exactly that item. Nothing else in storage, keys or registers changes, and an address beyond the installed storage is never accessed.",
     ["inputs", "configurations"], "every switch setting, register state and installed size",
     "No test drives the console switches.", F30,
     [("cycle_2030", "src/model2030/cpu2030.c: DISPLAY and STORE handling")], S30)
claim("C06", "Postconditions of cycle_2030() with the clock stopped; the parity bit the console writes is left open.")

exec(open(HERE + "/props_more.py").read()) if os.path.exists(HERE + "/props_more.py") else None

def main():
    P.sort(key=lambda d: d["id"])
    with open(HERE + "/properties.jsonl", "w") as f:
        for d in P: f.write(json.dumps(d) + "\n")
    ids = [d["id"] for d in P]
    na = dict(NA)
    assert set(ids) == set(CL) | set(na) and not set(CL) & set(na), (set(ids) ^ (set(CL) | set(na)))
    for d in P: assert len(d["title"]) <= 80, d["id"]
    m = dict(version=1, setup_cmd="python3 lib/setup.py",
             checks=[dict(property=i, quick_cmd="python3 lib/vk.py %s" % i, thorough_cmd="python3 lib/vk.py %s" % i,
                          evidence_file="evidence/%s.json" % i, technique=CL[i][0], level=CL[i][1], level_note=CL[i][2])
                     for i in ids if i in CL],
             not_applicable=[dict(property=i, reason=na[i]) for i in ids if i in na],
             notes="Contracts live in h/*.c beside nothing but #include of /repo sources; see DESIGN.md.")
    with open(HERE + "/MANIFEST.json", "w") as f: json.dump(m, f, indent=1); f.write("\n")
if __name__ == "__main__": main()
