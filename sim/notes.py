"""Run counts and the prose that goes into the evidence files."""

COUNTS = {
    "C01": (3000, 60000),
    "C05": (10000, 80000),
    "C06": (15000, 80000),
    "C07": (10000, 80000),
    "C08": (8000, 60000),
    "C09": (4000, 60000),
    "C10": (4000, 40000),
    "C11": (2400, 60000),
    "C12": (6000, 60000),
    "C13": (12000, 100000),
    "C14": (2800, 80000),
    "C15": (10000, 80000),
    "C16": (2500, 50000),
    "C04": (12000, 80000),
    "C03": (8000, 60000),
    "C20": (12000, 120000),
    "C22": (12000, 120000),
    "C21": (4000, 60000),
    "C02": (8000, 60000),
    "C23": (8000, 80000),
}

ASSUMPTIONS = [
    "a killed process loses what its user-space buffers hold, files keep what write(2) accepted",
    "the cryptographic libraries below the package behave as their documentation says",
    "sampled schedules and faults: a clean batch is evidence, not proof",
]

RULES = {
    "C01": "A plan is an encryption and a decryption, by commands or by the library, with recipients of every kind (1 to 3, sometimes up to 100), a size around chunk, line and buffer boundaries (0 to about 1.5 MiB) and content (random, zeros, text, header look-alikes), a write and a read split, a segmentation of every transfer, a wrapper around the stream, and for pipelines a pipe capacity and a schedule.",
    "C02": "A fault-free dry run counts the output events of the planned command; the faults (errno, zero, short and none writes, failing flush, failing close, broken pipe, one-off or lasting) are then placed on them.",
    "C03": "The plan kills, interrupts or fails an encrypt command at a counted event of any kind (open, read, prompt, request, entropy, write, close), interrupts it between two lines of the package, tears a write at any byte or exactly at a chunk boundary, raises inside a with-block, or encrypts a file onto itself.",
    "C04": "A valid file gets one to three damages (bits, bytes, truncation, append, chunk and recipient level surgery, splices from a second file, argument, kind and letter-case changes, canonicalisation changes) before, or between two reads of, a decryption; read faults are added.",
    "C05": "Decrypt commands that must fail (damage, no identity, wrong passphrase, prompt or read error) and decrypt commands whose output device fails or which are killed, or which are interrupted between two lines, against files, terminals, pipes and existing outputs.",
    "C06": "Recipients and identities of every kind, number and order, including near-identical keys, SSH keys with colliding tags, foreign and unknown entries, up to 100 recipients; directory and hash order are drawn.",
    "C07": "An SSH directory is filled with usable identities and 1 to 6 unusable files (fixtures of every format, torn, flipped, re-encoded, special files, odd names), under faults that hit opening, reading and listing, or that remove files while the directory is scanned.",
    "C08": "A world of alias files, key files, HTTP servers and accounts, from which arguments are drawn; faults hit its sources (missing, unreadable, error statuses, resets, stalls, short bodies, redirects, malformed keys).",
    "C09": "Histories of encryptions and key generations in one process, in many, in threads (preempted at lines or bytecodes) and across a real fork, with frozen or stepped clocks, entropy that varies in few bytes, a failing entropy source, and a second run that differs in entropy only.",
    "C10": "Several threads with sessions or command functions over shared key objects, preempted at package lines or bytecodes, or a sequence of sessions in one process in which files change content between sessions; the reference is each session alone.",
    "C11": "Histories and interleavings of generate commands appending to shared or new key files, with clocks, torn writes, kills, full disks and restarts, followed by loads.",
    "C12": "Every command under every kind of fault, wrong input and interrupt; every stream, file, directory and whatever was written to files that are gone again is scanned for raw and encoded forms of the secrets.",
    "C13": "Headers drawn from a grammar of hostile password entries, or damaged ones, met by one or several passphrases and identities.",
    "C14": "Armored files of every size class under line ending conversion, surrounding text and text transport damage, read in every segmentation.",
    "C15": "Histories of operations (write, writelines, flush, close, with-block, exceptions, garbage collection, reuse of the sink) against a state model of a stream, with sink faults.",
    "C16": "A fleet of writers and readers, each running either the code under study or a frozen independent implementation, upgraded, rolled back and restarted between operations on a shared store that also holds golden files.",
    "C21": "Commands on good, damaged, cut and senseless input, with faults and one-byte transfers, within a bound on steps that depends on the sizes; commands hit by one to three faults or kills and then run again on the leftovers; pipelines of four processes of which some stop early or die.",
    "C22": "Histories of generate commands under every umask, file mode and way to name the output, with output faults.",
    "C23": "Histories of decryption and encryption sessions on sources and sinks that a caller opened and keeps using: reads of every size and kind, directly and through wrappers, closing, discarding in any order, read faults followed by another attempt, further identities, files behind each other; a model of the plaintext position and of the caller's streams decides.",
    "C20": "Every command with every way to name its output, in a directory tree full of decoys, under faults, kills and interrupts; the whole tree and the list of contacted hosts are compared before and after.",
}
EXTRA = {
    "C09": ["scrypt runs with a small cost; its salt and its result are the real ones for that cost"],
    "C11": ["a single write(2) of a key pair to a file opened for appending is atomic"],
    "C16": ["the frozen implementation (sim/refage.py) stands for other versions; golden files come from the original commit"],
}
