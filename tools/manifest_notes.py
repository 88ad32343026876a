NOTES = "All checks rebuild /verif/harness (path dependency on /repo) and run one property of it. No hooks in /repo are needed: everything is observed through the public API, a wrapping pricing context, the allocator and the sanitizers."
DEFAULT_TECH = "runtime monitoring: generated workloads on the real code, online monitors comparing every observation with an independent reference model"
DEFAULT_NOTE = "Holds on every execution observed (counts in the evidence file); no claim beyond the generated workloads. Trusts the reference model in /verif/harness."
SPECIAL = {
    "A02": ("sanitizers and runtime monitoring: random C-interface call sequences under AddressSanitizer/LeakSanitizer, in Miri, and with a counting allocator, against a model of what every handle holds",
        "No memory error or leak in the sequences run (counts in the evidence file). Sequences follow the documented ownership rules; Miri runs fewer and smaller ones."),
    "A03": ("runtime monitoring: fault injection through documents, files, handles and failing calculations, with a parent process that notices and attributes crashes",
        "Every failure provoked came back as a readable error; failures that exhaust memory or stack are not provoked."),
    "A04": ("race detector and runtime monitoring: threads sharing objects under ThreadSanitizer and in a plain build, every observation compared with the same script run alone",
        "No race or difference in the interleavings observed; ThreadSanitizer's happens-before analysis extends this to reorderings of the same accesses."),
}
