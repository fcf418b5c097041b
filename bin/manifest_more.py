IO = "TLA+ / TLC: specification of indexes, dumps and directories (HnswFiles); traces of real histories of builds, dumps, reloads and mappings validated by TLC (TraceFiles)"
ION = ("TLC decides every step of random histories recorded on the real code: content of every live index through its public API, "
       "all files of the directories, results of loads; element types f32, u8, u16 (variable length), i32, u32 and several distances; ")
MORE = {
    "P12": (IO + "; continued insertion and search checked by TraceSeq", ION + "plus sessions that reload in the middle and go on in a twin"),
    "P14": (IO, ION + "all forms of reload with mapping and thresholds, reads of the data file with DataMap. 8-byte aligned element types are excluded (DESIGN)"),
    "P15": (IO + "; design model MCFiles", ION + "every file compared before and after each dump"),
    "P16": (IO, ION + "extraction from built, reloaded and graph-only indexes"),
    "P17": (IO, ION + "18 pairs of type and distance tried against each dump"),
    "P13": ("TLA+ / TLC: model of the writes of a dump with crashes and full disks (HnswDump), of the format (HnswFormat, MCFormat); loads of every "
            "prefix of real dumps and of every state between system calls validated by TLC (TraceCrash)",
            "All byte prefixes of either file for small indexes, sampled pairs of prefixes, all states of the files between system calls and "
            "sampled partial writes, over nothing or an older dump; write failures after a sampled number of bytes. Crashes are of the process: "
            "the kernel keeps what was written."),
    "P20": ("TLA+ / TLC: byte level specification of the format for versions 2, 3, 4 (HnswFormat, model MCFormat); real dumps and loads of files of "
            "each version compared byte by byte by TLC (TraceFormat)",
            "MCFormat is exhaustive for two layers and two points; random indexes (arbitrary ids, links, levels) for the conformance; every mark "
            "of every file changed in turn."),
    "P18": ("TLA+ / TLC: specification of handles, insertions, dumps and loads through the C interface (HnswCapi); sessions that make each call "
            "through C and through Rust validated by TLC (TraceCapi)",
            "31 pairs of element type and distance (functions of the C interface given to it included), forced levels so that the Rust twin "
            "makes the same index, parallel filling, descriptions, reloads through C and continued insertion; buffers overwritten after each call"),
    "P19": ("TLA+ / TLC: law of the levels in exact integer arithmetic (HnswLevels), sampling algorithm model checked against it (MCLevels); reported "
            "scales and levels of inserted points validated by TLC (TraceLevels)",
            "Statistical for the law: the numbers of points at or above each level within seven standard deviations, for indexes of thousands of points, "
            "for the first points of thousands of indexes, after modifications of the scale and after reloads; exact for the scale."),
    "P21": ("TLA+ / TLC: model of ownership by tables, links, entry point and user, and of the steps of the drop (HnswDrop); allocated points and "
            "elements observed after each step of real sessions validated by TLC (TraceDrop)",
            "All link graphs of three points and two layers in the model; random indexes filled in all ways, reloads, points held by the user, "
            "drops on other threads and while unwinding in the conformance."),
    "P22": ("TLA+ / TLC: model of dumps among insertions, one action per critical section (HnswConc, DumpCoherent); recorded executions of the code under "
            "a controlled scheduler with dumps among insertions, each dump reloaded and mapped, validated by TLC (TraceConc)",
            "All interleavings in the model for up to two insertions and a dump on small graphs; random, priority and two-preemption schedules of real "
            "executions of two to four threads."),
    "P23": ("TLA+ / TLC: model of reads among insertions, one action per critical section (HnswReads on HnswConc); executions of the code under a controlled "
            "scheduler (TraceConc) and large sessions with real threads (TraceLarge), each read validated by TLC",
            "All interleavings in the model for up to two insertions and a read on small graphs; random, priority and two-preemption schedules of real "
            "executions of two to four threads; thousands of points inserted by three threads while two others read."),
}
