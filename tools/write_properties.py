"""Writes properties.jsonl and MANIFEST.json from one table (run by hand)."""

import json
import os

HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))

FORMATS = (
    "alias data, ASL, bookmark data, BSM, Chrome cache, CPIO, CUPS IPP, DetectionHistory, "
    "Firefox cache, fseventsd, GZip, IndexedDB, job, jump lists, keychain, LevelDB, Recycle "
    "Bin, RP logs, Safari cookies, Spotlight, systemd journal, TZif, unified logging, USN "
    "journal, utmp, WMF and EMF, WMI repository, AMCache")


def P(id, title, statement, over, text, why, files, mechanism, level, note):
    return {
        "property": {
            "id": id, "title": title, "statement": statement,
            "quantifier": {"over": over, "text": text}, "why_tests_cant": why,
            "anchors": {
                "files": files,
                "mechanism": [{"name": name, "where": where} for name, where in mechanism],
            },
        },
        "level": level, "note": note,
    }


TABLE = [
    P("P01", "A read that fails or comes up short never becomes data or silent loss",
      "When an open, seek or read of an evidence file fails, returns fewer bytes than asked, "
      "or the file shrinks while it is read, the reader either reports exactly what it reports "
      "for the undisturbed file or ends with the documented parse or operating system error. "
      "Everything it reported (records and text) before that error is an unaltered prefix of "
      "the undisturbed report: nothing is invented, altered or skipped.",
      ["fault_sequences", "inputs"],
      "every operation of every reader x EIO, short read, shrinking file, EACCES, EMFILE, "
      "failed allocation, with and without tracing",
      "The tests read intact local files; no test makes an operating system call fail or a "
      "file shrink, and there are thousands of operations per file at which that can happen.",
      ["dtformats/data_format.py", "dtformats/file_system.py", "dtformats/unified_logging.py",
       "dtformats/wmi_repository.py", "dtformats/spotlight_storedb.py",
       "dtformats/chrome_cache.py", "dtformats/cpio.py", "dtformats/leveldb.py"],
      [("checked reads", "BinaryDataFormat._ReadData and _ReadStructureFromFileObject"),
       ("record loops of every format", "ReadFileObject and the public Read/Get methods")],
      "exploration",
      "seeded search: faults at every distinct call site of every reader, random operations "
      "within a call site; not every operation x fault pair"),
    P("P02", "Evidence that lost its tail yields a prefix or a documented error",
      "For a file cut off at any byte (a crash of its writer, an incomplete copy) a reader "
      "ends with the documented parse or operating system error, or reports a prefix of the "
      "records of the complete file. It never ends with another exception, never reports a "
      "record the complete file does not have, and only formats that are streams of records "
      "may end without an error.",
      ["crash_points", "inputs"],
      "every byte length of every file of every format, with and without tracing",
      "The tests have one intact sample per format; the cut points are every byte of every "
      "file.",
      ["dtformats/data_format.py", "dtformats/tzif.py", "dtformats/keychain.py",
       "dtformats/safari_cookies.py", "dtformats/rp_change_log.py", "dtformats/jump_list.py"],
      [("size checks before data is mapped", "every ReadFileObject"),
       ("mapping errors become parse errors", "BinaryDataFormat._ReadStructureFromByteStream")],
      "exploration",
      "seeded search over cut points next to the reads of every call site and uniform ones"),
    P("P03", "Complete records are reported exactly, in order, while a file grows or is torn",
      "Every record that is complete on disk when it is opened is reported exactly once, in "
      "order and with the values that its writer stored, also when the writer crashed in the "
      "middle of the next record or keeps appending while the file is read. Nothing else is "
      "reported as a record; a torn tail is left out or ends the report with a documented "
      "error.",
      ["crash_points", "schedules", "inputs"],
      "all record contents and sizes a writer of the format can produce x every crash point "
      "of the writer x every interleaving of appends with the operations of the reader",
      "The tests compare a few values of one sample per format, and several formats have no "
      "sample at all; none is read while it changes.",
      ["dtformats/usn_journal.py", "dtformats/systemd.py", "dtformats/leveldb.py",
       "dtformats/indexeddb.py", "dtformats/detection_history.py",
       "dtformats/unified_logging.py", "dtformats/spotlight_storedb.py",
       "dtformats/keychain.py", "dtformats/chrome_cache.py", "dtformats/firefox_cache1.py",
       "dtformats/safari_cookies.py", "dtformats/bsm.py", "dtformats/asl.py",
       "dtformats/utmp.py", "dtformats/fseventsd.py", "dtformats/cpio.py",
       "dtformats/tzif.py", "dtformats/job.py", "dtformats/recycler.py",
       "dtformats/recycle_bin.py", "dtformats/rp_log.py", "dtformats/rp_change_log.py",
       "dtformats/cups_ipp.py", "dtformats/gzipfile.py"],
      [("record and block boundaries", "ReadRecords, ReadTableEntries, ReadFileObject loops"),
       ("structure definitions", "dtformats/*.yaml")],
      "exploration",
      "independent reference writers generate the files; the ledger of the writer is the "
      "oracle"),
    P("P04", "Readers that work at the same time do not influence each other",
      "Any number of readers, of the same or different formats and on the same or different "
      "files, can be used at the same time from different threads, one reader per thread. For "
      "every interleaving of their steps each reports exactly what it reports when it works "
      "alone, also when another one fails or is interrupted.",
      ["schedules", "fault_sequences"],
      "every interleaving of two to four readers at disk operations, output writes and "
      "function or line boundaries, with faults in some of them",
      "The tests use one reader at a time on one thread; shared class or module state only "
      "shows in particular interleavings.",
      ["dtformats/data_format.py", "dtformats/unified_logging.py", "dtformats/file_system.py",
       "dtformats/data_range.py"],
      [("class level definitions shared by all readers", "_FABRIC, _DEBUG_INFORMATION"),
       ("per reader caches", "_data_type_maps and the state of every reader")],
      "exploration",
      "seeded random, lazy and priority schedules of real threads run one at a time"),
    P("P05", "A reader that is used again reports what a new reader would report",
      "What a reader reports for a file does not depend on what was read before: after any "
      "history of complete, failed, interrupted or abandoned uses and a close, the same reader "
      "opens another file and reports exactly what a newly made reader reports. The same holds "
      "for a new reader after any history of other readers in the process.",
      ["histories", "fault_sequences"],
      "every sequence of intact, damaged, faulted and interrupted uses of one reader object",
      "The tests make a new reader for every file; state left behind needs a particular first "
      "file or a failure at a particular point.",
      ["dtformats/data_format.py", "dtformats/jump_list.py", "dtformats/job.py",
       "dtformats/unified_logging.py", "dtformats/spotlight_storedb.py",
       "dtformats/wmi_repository.py"],
      [("state that is reset per file", "Open, Close and ReadFileObject of every reader")],
      "exploration", "seeded histories of two to four uses per reader class"),
    P("P06", "Files are released and evidence is never modified, whatever happens",
      "Once a reader is closed, or its open failed, every file it opened is closed, no matter "
      "at which operation an error, an interrupt, a failed allocation or a failing output ended "
      "the use and whatever the files contain. Evidence is only ever opened for reading, and an "
      "interrupt reaches the caller.",
      ["fault_sequences", "inputs"],
      "every operation of every reader x interrupt, error, failed allocation, failing output; "
      "damaged files",
      "The tests never interrupt a reader and do not look at file handles.",
      ["dtformats/data_format.py", "dtformats/file_system.py", "dtformats/chrome_cache.py",
       "dtformats/wmi_repository.py", "dtformats/unified_logging.py",
       "dtformats/jump_list.py"],
      [("close on failed open", "BinaryDataFile.Open"),
       ("companion files closed with their owner", "Close of the composite readers")],
      "exploration", "faults at every call site, seeded choice within a call site"),
    P("P07", "Reading ends after bounded work, whatever bytes are stored",
      "For any content of an evidence file, including offsets that point backwards or in "
      "cycles and sizes and counts of zero or the maximum, reading ends: with a report or an "
      "error, within a number of operations, an amount of output and an amount of memory in "
      "proportion to the size of the file.",
      ["inputs", "fault_sequences"],
      "every content reachable from an intact file by flipped bits, overwritten words "
      "(including pointers to visited places), lost, misdirected and torn sectors",
      "The tests read intact files, on which every loop ends.",
      ["dtformats/systemd.py", "dtformats/wmi_repository.py", "dtformats/spotlight_storedb.py",
       "dtformats/unified_logging.py", "dtformats/asl.py", "dtformats/chrome_cache.py"],
      [("progress of every record loop", "ReadFileObject and Read methods"),
       ("visited sets of linked structures", "systemd, WMI and Spotlight readers")],
      "exploration", "seeded stored-data faults, operations and output counted, CPU watchdog"),
    P("P08", "A range or archive member behaves as a file of exactly its bytes",
      "Every data range and every archive member behaves as a separate read-only file that "
      "holds exactly its bytes: any sequence of reads, seeks and position and size queries "
      "gives what that file would give, however the uses of ranges and members that share one "
      "evidence file are interleaved, and nothing outside the range is ever returned. A read "
      "of the shared file that fails leaves the position unchanged and one that comes up short "
      "moves it by what was returned.",
      ["schedules", "histories", "fault_sequences", "inputs"],
      "every sequence of operations on one to five (nested) ranges of a file or all members of "
      "an archive, interleaved, with failing and short reads of the shared file",
      "The tests use one range at a time with a handful of reads and seeks, and read members "
      "of one sample in order.",
      ["dtformats/data_range.py", "dtformats/cpio.py"],
      [("position of the range kept apart from that of the file", "DataRange.read and seek"),
       ("members share the archive file", "CPIOArchiveFile.GetFileEntryByPath")],
      "exploration", "seeded sequences of operations compared with a byte string model"),
    P("P09", "Lookups and iterations of one open reader do not disturb each other",
      "Every iteration over the records, entries or keys of an open reader, and every lookup of "
      "a part of it, gives exactly what it gives when it is the only use of that reader: "
      "however iterations and lookups are interleaved, repeated, abandoned half way or ended by "
      "a failed read. An iteration that is advanced gives each of its records once and in "
      "order, and what was handed out does not change afterwards.",
      ["schedules", "histories", "fault_sequences", "inputs"],
      "every sequence of starting, advancing and abandoning iterations and of lookups on one "
      "open reader, with at most one failing or short read, interrupt or failed allocation",
      "The tests make one complete iteration or a single lookup on each new reader.",
      ["dtformats/unified_logging.py", "dtformats/wmi_repository.py",
       "dtformats/spotlight_storedb.py", "dtformats/cpio.py", "dtformats/leveldb.py",
       "dtformats/usn_journal.py", "dtformats/jump_list.py", "dtformats/keychain.py",
       "dtformats/chrome_cache.py"],
      [("generators over a shared file position and catalog", "TraceV3File.ReadLogEntries, "
        "USNRecords.ReadRecords"),
       ("caches of pages, files and class definitions", "GetMetadataItemByIdentifier, "
        "CIMRepository.GetInstances")],
      "exploration", "seeded schedules of uses, each compared with the use made alone"),
    P("P10", "The report does not depend on where and how the evidence is read",
      "A reader reports the same records and trace for the same evidence wherever it is kept "
      "and however it is named: in a directory of any name, near the root, by an absolute, "
      "relative or roundabout path, in the native file system or inside a storage image. The "
      "order in which directories list their entries, the time zone, the locale, the hash "
      "seed and the optimisation level of the process do not change it either.",
      ["configurations", "schedules", "inputs"],
      "every place and spelling of the path x native, dfVFS directory, TAR and ZIP image x "
      "directory orders x time zones, locales, hash seeds and optimisation levels",
      "The tests run in one directory, one process environment and one directory order.",
      ["dtformats/file_system.py", "dtformats/dfvfs_helpers.py",
       "dtformats/unified_logging.py", "dtformats/chrome_cache.py",
       "dtformats/wmi_repository.py", "dtformats/spotlight_storedb.py"],
      [("companion files found next to the evidence", "helper JoinPath, SplitPath, ListDirectory"),
       ("dates formatted in UTC", "_FormatIntegerAs* in dtformats/data_format.py")],
      "exploration", "seeded environments, each compared with the undisturbed run"),
    P("P11", "Tracing changes only the trace, and a failing output is reported",
      "Turning debug tracing on or off does not change the records that a reader reports for "
      "an intact or cut off file, nor whether an intact file can be read; in a damaged file it "
      "may only make the damage known earlier, as a documented error. When writing to the "
      "output fails at any moment, that failure reaches the caller, nothing more is written, "
      "and what was written before is an unaltered prefix.",
      ["configurations", "fault_sequences", "inputs"],
      "every reader and file with tracing on and off x failure of the nth output write for "
      "every n",
      "The tests check debug formatting of single structures and use an output that never "
      "fails.",
      ["dtformats/data_format.py", "dtformats/output_writers.py"],
      [("debug printing interleaved with reading", "_DebugPrint* calls in every reader")],
      "exploration", "pairs of runs, and failing writes at seeded positions"),
    P("P12", "Missing or unrelated files beside the evidence change nothing else",
      "When a file that a reader looks up beside its input (the strings of an image, a shared "
      "cache, time synchronisation, a mapping or data block file) is absent, or comes or goes "
      "while the reader works, every record is still reported in the same order with every value "
      "that is not taken from that file unchanged and nothing made up for the values that are; "
      "a file that cannot be done without ends the read in a documented error. Files that the "
      "evidence does not refer to are not opened and change nothing, whatever they hold.",
      ["inputs", "fault_sequences", "schedules"],
      "every subset of the companion files of an input x absent, deleted or created before any "
      "disk operation; unrelated files with similar names",
      "The tests read complete sample directories.",
      ["dtformats/unified_logging.py", "dtformats/wmi_repository.py",
       "dtformats/chrome_cache.py"],
      [("strings of images and caches, cached when absent too",
        "TraceV3File._GetUUIDTextFile, _GetDSCFile, _GetImageValues, _GetProcessImageValues"),
       ("where companions are looked up", "TraceV3File._ReadFileObject"),
       ("files of a CIM repository", "CIMRepository._FindFile, _GetActiveMappingFile")],
      "exploration",
      "runs with everything and with nothing to look up are the references for every subset"),
    P("P14", "The command line tools print all that was found, or fail visibly",
      "A command line tool that ends with exit status 0 printed everything its reader found "
      "in the evidence, in order (log entries in order of time) and with the values the reader "
      "gives for it; JSON output is well formed whatever characters the evidence contains. "
      "When the evidence is absent, cannot be read completely or does not parse, or when the "
      "output fails, the exit status is not 0 and what was printed before is an unaltered "
      "prefix.",
      ["inputs", "fault_sequences", "configurations"],
      "every tool, its options and every evidence file x failing and short reads, absent "
      "files and failing output",
      "There are no tests of the tools.",
      ["scripts/unified_logging.py", "scripts/spotlight_storedb.py",
       "scripts/wmi_repository.py", "scripts/keychain.py", "scripts/cpio.py",
       "scripts/usn_journal.py", "scripts/leveldb.py", "scripts/indexeddb.py",
       "scripts/rp_change_log.py", "dtformats/output_writers.py"],
      [("entries printed in order of time", "LogEntriesHeap in scripts/unified_logging.py"),
       ("exit status", "Main of every script")],
      "exploration",
      "the scripts run unmodified; references written independently state the output"),
    P("P15", "Damaged evidence ends in a report or in a documented error",
      "Whatever bytes of the evidence are damaged on disk, opening and reading it, traced or "
      "not, ends either in a report or in one of the documented errors: a parse error, or an "
      "input/output error. It never ends in an error that a caller that handles the documented "
      "ones would not expect, such as one about an index, a type, an attribute, a missing key, "
      "a division or a text encoding.",
      ["inputs", "fault_sequences"],
      "bits, words and runs of bytes of every file replaced by other, extreme, out of range or "
      "undecodable values, parts overwritten by other parts, and cuts",
      "The tests read intact sample files; damage differs in place and value.",
      ["dtformats/data_format.py", "dtformats/unified_logging.py",
       "dtformats/wmi_repository.py", "dtformats/chrome_cache.py", "dtformats/keychain.py",
       "dtformats/bsm.py", "dtformats/cups_ipp.py", "dtformats/indexeddb.py",
       "dtformats/bookmark_data.py", "dtformats/spotlight_storedb.py"],
      [("errors of dtFabric and of read become ParseError",
        "BinaryDataFormat._ReadData, _ReadStructureFromByteStream"),
       ("bounds of stored counts, offsets and indexes", "every reader")],
      "exploration", "seeded damage of the bytes that an undisturbed run reads"),
]

NOT_APPLICABLE = []


def main():
    with open(os.path.join(HERE, "properties.jsonl"), "w", encoding="utf-8") as stream:
        for entry in TABLE + NOT_APPLICABLE:
            stream.write(json.dumps(entry["property"]) + "\n")
    manifest = {
        "version": 1,
        "setup_cmd": "true",
        "checks": [
            {
                "property": entry["property"]["id"],
                "quick_cmd": f"./check {entry['property']['id']} --tier quick",
                "thorough_cmd": f"./check {entry['property']['id']} --tier thorough",
                "technique": "deterministic simulation with fault injection",
                "level": entry["level"],
                "level_note": entry["note"],
            }
            for entry in TABLE
        ],
        "not_applicable": [
            {"property": entry["property"]["id"], "reason": entry["note"]}
            for entry in NOT_APPLICABLE
        ],
    }
    with open(os.path.join(HERE, "MANIFEST.json"), "w", encoding="utf-8") as stream:
        json.dump(manifest, stream, indent=1)
        stream.write("\n")


if __name__ == "__main__":
    main()
