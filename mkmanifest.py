"""Writes MANIFEST.json (run by hand after changing the list of checks)."""

import json

NOTE = (
    "Seeded search over simulated runs of the real package; a clean batch is evidence, not proof. "
    "Trusts the simulator's model of files, pipes, terminals and kills, and the cryptographic libraries below the package. "
)
LEVEL = {
    "C01": "Round trips at command, pipeline and stream level under random segmentation and scheduling.",
    "C02": "Every kind of output fault at positions drawn over all output events of a dry run; the oracle re-reads the destination in a fresh process.",
    "C03": "Kills, interrupts and errors at positions drawn over all events of encrypt; the leftover is offered to every recipient.",
    "C04": "Structured storage damage; an independent parser decides whether authenticated content changed.",
    "C05": "All causes of failure and kills; output compared with the true plaintext.",
    "C06": "Random recipient and identity mixes, hash and directory orders.",
    "C07": "Broken, torn, unreadable and vanishing key files with read and open faults.",
    "C08": "Resolution worlds of aliases, files and HTTP servers with faults; each header entry is tried with each key.",
    "C09": "Histories and thread interleavings with invariants at the cipher boundary; differential runs that change only entropy, clock or seed.",
    "C10": "Threads preempted at source lines and bytecodes; each session compared with the session alone.",
    "C11": "Concurrent and sequential generators, crashes, torn key files.",
    "C12": "All streams of all commands scanned for secrets, under faults.",
    "C13": "Forged headers; invariant on the calls to the password hash.",
    "C14": "Text transport faults on armored files.",
    "C15": "Histories of stream operations with sink faults against a small state model.",
    "C16": "Fleet of nodes exchanging files with an independent frozen implementation and golden files made by the base version.",
    "C20": "The whole directory tree and the contacted hosts compared before and after every command, under faults and kills.",
    "C21": "Bound on steps under senseless input and faults; repeated runs after kills; pipelines with dying members.",
    "C22": "Histories of generate commands under all umasks, modes and redirections.",
    "C23": "Histories of sessions on streams that the caller keeps; a model of the plaintext position and of the caller's streams decides.",
}
NA = {
    "C17": "A pure function of its input: no schedule, clock, fault, I/O or second party takes part, so a simulator has nothing to decide.",
    "C18": "Parsing of one byte string with one passphrase: no schedule, clock or interleaving takes part. Torn and damaged key files as faults are covered by C07.",
    "C19": "Agreement of pure functions with published standards for every input; nothing nondeterministic takes part. C16 pins the composition against an independent implementation.",
}


def main():
    from sim import notes

    checks = []
    na = [{"property": k, "reason": v} for k, v in NA.items()]
    for p in sorted(LEVEL):
        if p not in notes.COUNTS:
            na.append({"property": p, "reason": "check not built yet"})
            continue
        checks.append(
            {
                "property": p,
                "quick_cmd": "./check %s quick" % p,
                "thorough_cmd": "./check %s thorough" % p,
                "evidence_file": "evidence/%s.json" % p,
                "technique": "deterministic simulation with fault injection",
                "level": "exploration",
                "level_note": LEVEL[p] + " " + NOTE.strip(),
            }
        )
    m = {
        "version": 1,
        "setup_cmd": "./setup",
        "checks": checks,
        "not_applicable": na,
        "notes": "No hooks in /repo are needed: every seam is at Python's own I/O, entropy, clock, HTTP and prompt interfaces, installed by the simulator in its own process.",
    }
    with open("MANIFEST.json", "w") as f:
        json.dump(m, f, indent=1)
        f.write("\n")


main()
