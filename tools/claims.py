PENDING = "Not claimed: its check is still being built; see DESIGN.md."
PURE = "A pure function of its input: no schedule, clock, I/O, fault or history for the property to depend on, so simulation has nothing to decide. "
NOT_APPLICABLE = {p["id"]: PENDING for p in props}
for i in ("C50", "C51", "C52", "C53", "C54"):
    NOT_APPLICABLE[i] = PURE
TRUST = " Seeded random search over schedules, histories and faults: what is not generated is not covered. Trusts the simulated libc boundary and the stand-ins for third-party crates (DESIGN.md)."
def claim(i, tech, note="", level="exploration"):
    CLAIMED[i] = (level, tech, (note + TRUST).strip())
claim("C01", "simulated editor sessions against the real server under seeded schedules; documents whose one finding quotes all of their text, compared with a reference document model")
claim("C02", "simulated editor sessions under every encoding offer; published ranges and offered edits compared with findings known by construction", "Suppression actions behind a `;` are not compared.")
claim("C03", "simulated client sending valid, malformed and unknown traffic; every request of the recorded history matched with exactly one response")
claim("C04", "bursts of saves, closes and reopens of documents with one unique finding per version under random schedules; published sequence compared with the version history")
claim("C05", "concurrent sessions under random schedules; every answer compared with that of a fresh simulated session that saw only that document version")
claim("C06", "sessions with injected file-system faults, floods and stalled clients; progress required within a bounded number of steps after faults stop")
claim("C07", "every order of shutdown, exit, end of input and closed output under random schedules; bounded termination, exit status and completeness of output checked over the history")
claim("C08", "the same session with unrestricted and with tiny, interrupted pipes; framing checked byte by byte, and the answers compared")
claim("C09", "arbitrary sessions over a simulated disk; any attempted modifying system call and any change of the tree is a violation")
claim("C10", "threads sharing the real client object preempted between any two memory accesses; recorded history compared with a reference table of outstanding requests")
claim("C11", "sessions with configuration files changing, breaking and disappearing on the simulated disk; answers compared with a fresh session on the tree of that moment")
claim("C12", "the whole project opened in a simulated editor session and checked by a simulated command-line run; findings per file compared", "Two known findings are excluded by class (known_findings.json).")
claim("C20", "fixing runs killed or cut off from power at random operations, or with failing, short and torn writes; the simulated disk that survives must hold each file old or new as a whole, with its mode, and no stray file")
claim("C21", "fixing runs interrupted by kills, power loss and errors at random operations, then repeated; bounded termination, and convergence to the state of the undisturbed run")
claim("C22", "trees with every kind of exclusion, links and targets under failing walks and kills; any change outside the selected, fixable files is a violation")
claim("C23", "fixing runs over generated code with known fixes, overlaps, comments and suppressions, under random schedules and I/O behaviour; the files compared byte by byte with the result by construction")
claim("C24", "read, write and listing errors at random operations on random files; the errors named, the status, and everything said and done about the other files compared with the undisturbed run")
claim("C25", "the same project under reordered directory listings, processor counts, schedules, spellings and working directories; output and disk compared")
claim("C26", "runs over subsets, repetitions and extensions of the selected files on several packages and configurations under random schedules; findings and fixes per file compared")
claim("C27", "fixing runs over trees with several repositories whose state is known by construction and index faults; refusal with nothing changed, or every fix, as determined by the flags")
claim("C28", "runs whose standard output and error fill up, break or are interrupted at random points; output a prefix, files and status as undisturbed, bounded termination")
claim("C29", "adding suppression comments with kills, power loss and I/O errors at random operations, repeated afterwards; inserted text, following checks and convergence compared")
claim("C30", "trees with one invalid or unreadable configuration on the simulated disk under random schedules; nothing modified, the problem named, the status an error")
claim("C31", "another process modifying, replacing and removing files between any two operations of a run; each file is a result of one of the versions it had, and none is lost")
claim("C55", "trees with configurations at every level run from many places with arguments of every form under random schedules and I/O behaviour; selection, findings and fixes per file compared with a model of the documented resolution")
claim("C56", "packages laid out by construction over a simulated disk, checked in parts under random schedules, listing orders, hash seeds and partial reads; reported functions compared with the uses, exports and definitions that were laid out")
claim("C57", "one state of a simulated disk reported in every format under random schedules, with output taken in pieces, and again while files are replaced, removed or unreadable at random operations; listed findings, counts and status compared with each other and with places computed from the contents")
