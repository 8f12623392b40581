import importlib
MODULES = {}
TECH, NOTE = {}, {}
for _p in ("C01", "C02", "C03", "C04", "C05", "C06", "C07"): MODULES[_p] = "pool"
for _p in ("C08", "C09", "C10", "C11", "C12", "C13", "C31"): MODULES[_p] = "logger"
for _p in ("C14", "C15"): MODULES[_p] = "lru"
TECH["lru"] = "TLA+ specification; TLC enumerates its transitions, each is replayed on the real code; TLC trace validation of the recorded histories"
NOTE["lru"] = ("Every transition of spec/LRU.tla for small constants, walks covering all of them, and long random histories are run on the real caches (four key/value type pairs, sanitizers on) "
               "and TLC checks every returned value against the specification.")
MODULES["C16"] = "safelru"
TECH["safelru"] = "TLA+ specification, TLC linearizability checking of recorded histories of the real code under a controlled scheduler"
NOTE["safelru"] = ("Every recorded concurrent history (controlled schedules, built as C++14 and C++20 so that both lock types are covered) is checked by TLC to be linearizable to spec/LRU.tla; "
                   "data races, deadlocks and crashes are faults no specification accepts.")
MODULES["C17"] = MODULES["C18"] = "scope"
TECH["scope"] = "TLA+ specification, TLC trace validation of programs of nested scopes interpreted with the real guards"
NOTE["scope"] = ("Generated and hand-written programs of nested scopes, exceptions, handlers, destructors and self-extending tasks run on the real guards (C++14, 17, 20; sanitizers on) and TLC "
                 "checks each recorded run against spec/Scope.tla.")
MODULES["C19"] = "stopwatch"
TECH["stopwatch"] = "TLA+ specification, TLC trace validation of recorded histories on a controlled clock"
NOTE["stopwatch"] = ("Every sequence of up to four state changes and long random histories, with times up to 10^17 ns, run on the real stopwatch with a controlled clock that also advances between readings; "
                     "TLC checks every value against spec/Stopwatch.tla.")
MODULES["C20"] = "range_"
TECH["range_"] = "TLA+ specification whose laws TLC checks for all small triples; TLC trace validation of programs over ranges run on the real code"
NOTE["range_"] = ("Every pair of ranges over tables of extreme and neighbouring points of nine point types, and random programs of construction, assignment and comparison, built as C++14, 17 and 20, "
                  "are validated by TLC against spec/Range.tla; the laws of order and overlap are model-checked on the specification for every triple.")
MODULES["C21"] = MODULES["C22"] = "seqs"
TECH["seqs"] = "TLA+ specification whose laws TLC checks for all small sequences; TLC trace validation of the results of every form of the real functions"
NOTE["seqs"] = ("All pairs of short sequences and random longer ones (all slices incl. extreme indices; chains of transforms) go through the iterator, container and string forms on many container and element types, "
                "built as C++14, 17, 20 with sanitizers and checked iterators; TLC checks every result against spec/Seqs.tla.")
MODULES["C23"] = MODULES["C24"] = MODULES["C26"] = "text"
TECH["text"] = "TLA+ specification whose laws TLC checks for all small texts; TLC trace validation of the results of every form of the real functions"
NOTE["text"] = ("All short texts, separators and patterns, random longer ones with planted occurrences, and five locales (one of our own, so that the locale asked for is seen to be used) go through every form of the "
                "functions for five character types, built as C++14, 17 and 20 with sanitizers; TLC checks every result against spec/Strings.tla. Trusts the standard library's locale facets.")
MODULES["C25"] = "number"
TECH["number"] = "TLA+ specification whose laws TLC checks for all small numbers; TLC trace validation of the texts the real functions give and read"
NOTE["number"] = ("Twenty integer types (8 to 128 bits) at every power of two and its neighbours and random patterns, floating-point values with exact text, words and a user type, and texts without a value, in two global "
                  "locales and narrow, wide and pointer forms, with uninitialised variables filled by a pattern; TLC derives the texts from the recorded bits and compares.")
MODULES["C27"] = MODULES["C28"] = "unicode_"
TECH["unicode_"] = "TLA+ specification of the encoding forms whose laws TLC checks; TLC trace validation of the results of every form of the real converters"
NOTE["unicode_"] = ("Every block of 64 scalar values, all pairs of bytes, all 16-bit units, products of border bytes up to four long, and damaged valid texts go through the pointer, string and named converters between five character "
                    "types (exact-size buffers, sanitizers); TLC checks every result against the encoding forms as defined in spec/Unicode.tla. The 16-bit wchar_t branches cannot be compiled here.")
MODULES["C29"] = MODULES["C30"] = "row"
TECH["row"] = "TLA+ specification whose laws TLC checks; TLC trace validation of the rows, names, times and identities the real code gives"
NOTE["row"] = ("Rows of chosen and random times, ids, levels, paths, lines, names and messages in several time zones, global locales and stream states, whole files written by the logger, every level, and broken-down times "
               "(epoch, leap days, year ends, clock changes), built as C++14, 17, 20, clang and with source info hidden; TLC computes the text and the calendar from spec/LogRow.tla and compares.")
TECH["logger"] = "TLA+ specification, TLC trace validation of the real code under a controlled scheduler with real files and injected failures"
NOTE["logger"] = ("Every execution explored (controlled schedules, real files in a scratch directory, injected open/mkdir/rename/remove failures) is checked by TLC to be a behaviour of "
                  "spec/Logger.tla, including what is found on disk; bounded numbers of threads, entries and schedules. Assumes writes to an open file succeed; trusts the scheduler's models of pthread primitives.")


def module(prop):
    return importlib.import_module(MODULES[prop])


def setup():
    for m in sorted(set(MODULES.values())):
        mod = importlib.import_module(m)
        if hasattr(mod, "setup"): mod.setup()
    return 0
