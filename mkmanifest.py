#!/usr/bin/env python3
"""Writes MANIFEST.json from checks.py and the texts below."""
import json
from checks import CHECKS
T = {
 'C01': ('online result monitor against an independent digit-by-digit conversion, exhaustive to 32 bits', 'Every 8-, 16- and 32-bit value is formatted on each run (gcc build); 64-bit values are sampled at all digit-count, pair-table and type boundaries and at random. Assumes that the sample reaches each branch of the 64-bit path; trusts the reference conversion in the harness.'),
 'C02': ('online round-trip monitor over all source and target integer types', 'All 8- and 16-bit values, strided 32-bit and directed/random 64-bit values through every type pair; exploration, not proof, for the wide types.'),
 'C03': ('online monitor against a reference parser of the stated rule', 'Directed prefixes x magnitudes x tails, all two-byte texts and random texts, as all ten types; exploration.'),
 'C04': ('online read-back monitor with two correctly rounding parsers', 'About 60 million doubles per run chosen for the hard spots of Grisu2, on a gcc and a clang build; trusts libstdc++ from_chars and glibc strtod, which must both disagree with the library for an alarm by text.'),
 'C05': ('online grammar monitor: re-rendering of the parsed digits in the stated notation', 'Every decimal exponent, every digit count in every notation (recorded in the evidence), NaN payloads, infinities, zeros; exploration.'),
 'C06': ('online monitor against shortest-closest text, exact rational arithmetic for the exceptions', 'Differences from libstdc++ to_chars are decided exactly with boost cpp_int against the stated guard band; exploration of about 60 million doubles per run.'),
 'C07': ('online monitor against three agreeing correctly-rounding oracles', 'Texts at and next to midpoints of neighbouring values of the three types, range limits, random texts, formatted values; from_chars, strto* in the C locale and exact rational rounding must agree before the library is judged.'),
 'C08': ('online monitor of value or exception against word equality', 'Edit neighbours, case variants, all texts of up to five of the letters of the words, all two-byte texts, random; all 256 characters.'),
 'C09': ('online round-trip monitor over enumerations of every underlying type', 'Fixed set of enumeration types (scoped and not, 15 underlying types) and directed/random values; stream positions.'),
 'C10': ('online differential monitor of generic functions against the formatter of the type', 'All supported types in const and non-const form, strings of all kinds, values directed and random.'),
 'C11': ('online monitor against a reference escaper and its inverse', 'All strings up to two bytes, each byte in context, lengths around allocation sizes, random strings up to 1 MB.'),
 'C12': ('online monitor with an independent validating JSON decoder', 'As C11, and scalars of all types checked against the JSON grammar and value.'),
 'C13': ('history monitor: every view of every live formatter compared with a string model after each step; AddressSanitizer', 'Random histories over all six formatter classes with dead storage overwritten; gcc and clang, plain and under sanitizers.'),
 'C14': ('gcc and clang ASan+UBSan+LSan, fortified libc, valgrind memcheck, capacity monitor', 'The workloads of all other checks under instrumentation. Functional failures are ignored here; only memory, undefined-behaviour, leak, crash and capacity reports count. Sanitizers see executed paths only; overflow inside an object is seen by the capacity monitor.'),
 'C15': ('ThreadSanitizer (gcc, clang) and offline comparison of recorded results with calls made alone', 'Races are judged by happens-before, so a race need not strike to be seen; first-use races by fresh processes. Evidence records overlapping operation pairs and interleaving windows. 8 threads, sampled schedules.'),
 'C16': ('differential monitor: same calls in a pristine process and under hostile locales, errno, rounding modes and histories', 'Six compiled locales, global/thread/C++ locale changes, own facets, four rounding modes, errno values, histories; all operations of the catalogue.'),
 'C17': ('history monitor against boost cpp_int after each operation; ASan+UBSan', 'Random histories with directed words and growth past capacity, on both the 128-bit and the portable arithmetic branches (gcc, clang).'),
 'C18': ('online monitor against bit-level definitions and correctly rounded decimal parsing', 'Powers of ten are exhaustive (309 values); classification explores every exponent and sign with directed and random significands.'),
 'C19': ('systematic fault injection: each allocation of each call failed in turn, heap and result monitors', 'All fault points of the explored calls are enumerated (single failure and failure from then on); inputs are sampled.'),
 'C20': ('rebuild under ten literal configurations, result monitors and sanitizers', 'Ten sets of words of 1 to 24 characters; every literal through every entry point and view, edit neighbours on extraction.'),
 'C21': ('online monitor of extended-precision operations against 128-bit integer arithmetic, on both code paths', 'Directed and random significand pairs, constructed ties, all binary exponents; gcc (128-bit) and clang (portable) branches; UBSan. Exploration.'),
 'C22': ('differential monitor: outcome digests of the same cases in twelve differently built programs', 'Twelve builds (two compilers, seven optimisation settings, LTO, NDEBUG and debug modes, unsigned char, old string ABI, position-dependent and -independent code, strict and GNU dialects, pattern-initialised locals); the catalogue of conversions and dense float, character and word blocks. A difference is reported with its case.'),
 'C23': ('history monitor: values of live extractors compared with C conversions after each step; AddressSanitizer', 'Random histories over the six extractor classes, text storage overwritten and freed after construction.'),
 'C24': ('resource monitor: processor time and heap requests of each call on inputs of doubling size', 'Bounds are about ten times the need seen (0.25 microseconds, quickest of six runs, and 64 bytes per input byte, one heap request per 16 bytes; memory kept after thousands of rounds), so that load cannot raise an alarm and quadratic code does; constants of linear code are not judged.'),
 'C25': ('differential monitor across moments of the process life; AddressSanitizer', 'Static constructors of first and last priority, main, thread_local and static destructors, atexit, forked child, in processes that use some of them only; children forked while threads convert.'),
 'C26': ('instruction-level interruption by single-stepping, text monitors on interrupted and interrupting calls', 'Every instruction of the sampled formatting calls is an interruption point (processor trap flag, no tracer needed), nested up to 40 deep; x86-64 only; values sampled.'),
 'C27': ('system-call filter, state snapshots around each call, write-protected inputs', 'The filter traps every system call but memory management in the conversions of a fresh process; state in memory is compared after each call; inputs and formatters lie in read-only pages before a guard page. State outside the list (static data of the C library) is not watched.'),
 'C28': ('stack high-water monitor on painted stacks with a guard page', 'Texts to some megabytes on stacks of 256 KiB; the bound of 64 KiB is four times what is seen; gcc and clang, optimised and -O0 builds.'),
}
m = {'version': 1, 'setup_cmd': 'python3 run.py list', 'checks': [
    {'property': p, 'quick_cmd': 'python3 run.py check ' + p, 'thorough_cmd': 'VERIF_TIER=thorough python3 run.py check ' + p,
     'evidence_file': 'evidence/%s.json' % p, 'technique': T[p][0], 'level': CHECKS[p]['level'], 'level_note': T[p][1] + (' Part of the inputs is chosen by a coverage-guided engine.' if any(str(x.get('variant','')).startswith('fuzz') for x in CHECKS[p]['steps']) else '')} for p in CHECKS],
    'not_applicable': [], 'notes': 'No hooks in /repo: the monitors observe public entry points and instrumented builds. See DESIGN.md.'}
json.dump(m, open('MANIFEST.json', 'w'), indent=1)
open('MANIFEST.json', 'a').write('\n')
