"""Which harness runs in which build variant for which property."""
from pathlib import Path

# fortified libc entry points (__memcpy_chk ...) escape the sanitizers' interceptors
W = ['-g', '-fno-omit-frame-pointer', '-U_FORTIFY_SOURCE']
_RT = '/usr/lib/llvm-18/lib/clang/18/lib/linux/libclang_rt.%s-x86_64.a'
FUZZ_LIB = [_RT % 'fuzzer_no_main']
FUZZ_HOOKS = ['-Wl,--whole-archive', _RT % 'fuzzer_interceptors', '-Wl,--no-whole-archive']
FUZZ_ALLOW = ['-fsanitize-coverage-allowlist=' + str(Path(__file__).resolve().parent / 'harness' / 'fuzz.allow')]
VARIANTS = {
    # plain optimised builds: functional monitors at full speed
    'rel': {'cc': ['g++'], 'flags': ['-O2']},
    # clang takes the library's portable branches (no __int128, own multiply)
    'relc': {'cc': ['clang++'], 'flags': ['-O2']},
    'asan': {'cc': ['g++'], 'flags': ['-O1'] + W + ['-fsanitize=address,undefined', '-fno-sanitize-recover=all', '-D_GLIBCXX_ASSERTIONS'],
             'libflags': ['-fsanitize=float-divide-by-zero,float-cast-overflow,bounds-strict'], 'sanitizer': True},
    'asanc': {'cc': ['clang++'], 'flags': ['-O1'] + W + ['-fsanitize=address,undefined', '-fno-sanitize-recover=all', '-fno-sanitize=function', '-D_GLIBCXX_ASSERTIONS'],
              'libflags': ['-fsanitize=float-divide-by-zero,float-cast-overflow'], 'sanitizer': True},
    'fort': {'cc': ['g++'], 'flags': ['-O2', '-g', '-D_FORTIFY_SOURCE=3', '-D_GLIBCXX_ASSERTIONS', '-fstack-protector-all', '-ftrivial-auto-var-init=pattern']},
    'tsan': {'cc': ['g++'], 'flags': ['-O1'] + W + ['-fsanitize=thread'], 'sanitizer': True},
    'tsanc': {'cc': ['clang++'], 'flags': ['-O1'] + W + ['-fsanitize=thread'], 'sanitizer': True},
    'vg': {'cc': ['g++'], 'flags': ['-O1', '-g'], 'sanitizer': True,
           'wrap': ['valgrind', '-q', '--error-exitcode=70', '--exit-on-first-error=yes', '--leak-check=full', '--errors-for-leak-kinds=definite', '--track-origins=no']},
    # builds a user may choose; only the library is built this way, unless the switch concerns headers too
    'o0': {'cc': ['g++'], 'flags': ['-DNDEBUG'], 'libflags': ['-O0'], 'harnessflags': ['-O1']},
    'o3': {'cc': ['g++'], 'flags': ['-O1'], 'libflags': ['-O3', '-march=native', '-ffp-contract=fast', '-std=c++20', '-funroll-loops']},
    'lto': {'cc': ['g++'], 'flags': ['-O2', '-flto=1', '-DNDEBUG']},
    'uchar': {'cc': ['g++'], 'flags': ['-O2', '-funsigned-char']},
    'oldabi': {'cc': ['g++'], 'flags': ['-O2', '-D_GLIBCXX_USE_CXX11_ABI=0', '-D_GLIBCXX_ASSERTIONS']},
    'clang0': {'cc': ['clang++'], 'flags': ['-O1'], 'libflags': ['-O0', '-std=c++17']},
    'clangs': {'cc': ['clang++'], 'flags': ['-Os', '-funsigned-char', '-DNDEBUG', '-std=c++20']},
    'gnus': {'cc': ['g++'], 'flags': ['-Os', '-fno-pie', '-no-pie', '-fwrapv'], 'libflags': ['-std=gnu++17', '-fno-rtti', '-fno-strict-aliasing', '-fno-builtin']},
    'debug': {'cc': ['g++'], 'flags': ['-Og', '-D_GLIBCXX_DEBUG', '-D_FORTIFY_SOURCE=2', '-DDEBUG', '-D_DEBUG', '-g'], 'libflags': ['-std=gnu++14', '-fPIC', '-fshort-enums', '-fstack-protector-strong']},
    'x87': {'cc': ['g++'], 'flags': ['-O2', '-std=c++20'], 'libflags': ['-mfpmath=387', '-fexcess-precision=fast']},
    'clang3': {'cc': ['clang++'], 'flags': ['-O1', '-std=c++17'], 'libflags': ['-O3', '-march=native', '-ffp-contract=fast', '-fno-plt', '-fvisibility=hidden']},
    # coverage-guided workloads: the library's branches, comparisons and table look-ups guide the choice of inputs
    'fuzz': {'cc': ['clang++'], 'flags': ['-O2', '-g1', '-DFUZZ', '-fsanitize=fuzzer-no-link'], 'harnessflags': FUZZ_ALLOW, 'link': FUZZ_LIB + FUZZ_HOOKS},
    'fuzza': {'cc': ['clang++'], 'flags': ['-O1'] + W + ['-DFUZZ', '-fsanitize=address,undefined,fuzzer-no-link', '-fno-sanitize-recover=all', '-fno-sanitize=function', '-D_GLIBCXX_ASSERTIONS'],
              'libflags': ['-fsanitize=float-divide-by-zero,float-cast-overflow'], 'harnessflags': FUZZ_ALLOW, 'link': FUZZ_LIB, 'sanitizer': True},
    'pattern': {'cc': ['clang++'], 'flags': ['-O2', '-ftrivial-auto-var-init=pattern']},
}
HARNESS_FLAGS = {
    'h_cost': {'link': ['-Wl,--wrap=malloc,--wrap=free,--wrap=calloc,--wrap=realloc']},
    'h_intr': {'link': ['-static']},
    'h_oom': {'link': ['-Wl,--wrap=malloc,--wrap=free,--wrap=calloc,--wrap=realloc']},
}
# words for true, false, null, NaN, Infinity, -Infinity
CONFIGS = {
    'default': ['true', 'false', 'null', 'NaN', 'Infinity', '-Infinity'],
    'python': ['True', 'False', 'None', 'nan', 'inf', '-inf'],
    'sql': ['TRUE', 'FALSE', 'NULL', 'NAN', 'INF', '-INF'],
    'one': ['1', '0', 'N', '?', '+', '-'],
    'long': ['affirmative_confirmation', 'negatory_contradiction_x', 'nothing_at_all_whatsoeve', 'this_is_not_a_number_at_a', 'positive_infinity_unbound', 'negative_infinity_unbound'],
    'prefix': ['yes', 'yesno', 'yesn', 'no', 'nono', 'n'],
    'swapped': ['false', 'true', 'nil', 'Infinity', 'NaN', 'infinity'],
    'format': ['%s%s%n', '%d', '%%', '%', '%5.3f%x', '-%1$s'],
    'quoted': ['"t"', '\'f', '\\0', 'ñan', '∞', '-∞'],
    'spaced': ['on line', 'off-line', '(null)', '#NUM!', '+oo', '-oo'],
}
for k, v in CONFIGS.items():
    CONFIGS[k] = [w[:24] for w in v]


def S(harness, variant, scale=1.0, **kw):
    d = {'harness': harness, 'variant': variant, 'scale': scale}
    d.update(kw)
    return d


ASSUME = ['x86-64 Linux with glibc; gcc 13 and clang 18 builds', 'libstdc++ charconv, glibc strtod and boost cpp_int are trusted as oracles']

# memory-safety workloads: (harness, monitor, scale, extra)
MEM = [('h_int', None, 0.02), ('h_intx', 'C02', 0.02), ('h_intx', 'C03', 0.05), ('h_flt', 'C05', 0.05), ('h_fltx', None, 0.03), ('h_words', None, 0.05),
       ('h_enum', None, 0.1), ('h_disp', None, 0.1), ('h_str', None, 0.1), ('h_obj', None, 0.1), ('h_big', None, 0.1), ('h_cls', None, 0.005)]


def mem(variant, mul, names=None, **kw):
    out = []
    for h, m, sc in MEM:
        if names and h not in names:
            continue
        d = S(h, variant, sc * mul, nofail=True, **kw)
        if m:
            d['mon'] = m
        out.append(d)
    return out


def giant(mon):
    return S('h_giant', 'rel', 1.0, mon=mon, repeat=1, tmul=1, tier='thorough', space=24)


CHECKS = {
    'C01': dict(level='exploration', steps=[S('h_int', 'rel', extra='full32', tmul=20), S('h_int', 'relc', 0.3), S('h_int', 'fuzz', 1.0)],
                rule='every value of all 8-, 16- and 32-bit types; 64-bit values around every power of two and ten, around every digit-group boundary, and random over magnitudes, in all ten types. A case is non-trivial if its value is formatted and compared digit by digit with an independent conversion.'),
    'C02': dict(level='exploration', steps=[S('h_intx', 'rel', 2.0, mon='C02'), S('h_intx', 'relc', 0.3, mon='C02'), S('h_intx', 'fuzz', 1.0, mon='C02')],
                rule='all 8- and 16-bit values, a strided pass over 32 bits, boundaries of every type and random 64-bit values, extracted as every type that can hold them.'),
    'C03': dict(level='exploration', steps=[S('h_intx', 'rel', 2.0, mon='C03'), S('h_intx', 'relc', 0.3, mon='C03'), giant('C03'), S('h_intx', 'fuzz', 1.0, mon='C03')],
                rule='sign and whitespace prefixes x magnitudes around every limit x tails, all two-byte texts, random texts; distinct texts, each extracted as all ten types and compared with a reference parser.'),
    'C04': dict(level='exploration', steps=[S('h_flt', 'rel', 2.0, mon='C04'), S('h_flt', 'relc', 0.5, mon='C04'), S('h_flt', 'fuzz', 1.0, mon='C04')],
                rule='finite doubles: every binary exponent x structured significands, neighbours of d*10^k, random over several distributions, neighbours of short decimals near rounding midpoints; floats and long doubles. Distinct bit patterns, each text read back by correctly rounding parsers.'),
    'C05': dict(level='exploration', steps=[S('h_flt', 'rel', 1.0, mon='C05'), S('h_flt', 'relc', 0.3, mon='C05'), S('h_flt', 'fuzz', 1.0, mon='C05')],
                rule='as C04, plus NaN payloads, infinities and zeros of all types; each text is parsed and compared byte for byte with the canonical notation of its digits and exponent.'),
    'C06': dict(level='exploration', steps=[S('h_flt', 'rel', 2.0, mon='C06'), S('h_flt', 'relc', 0.5, mon='C06'), S('h_flt', 'fuzz', 1.0, mon='C06')],
                rule='as C04; each text is compared with the shortest and closest one, and where they differ the stated exceptions are decided with exact rational arithmetic.'),
    'C07': dict(level='exploration', steps=[S('h_fltx', 'rel', 1.0), S('h_fltx', 'relc', 0.2), giant('C07'), S('h_fltx', 'fuzz', 1.0)],
                rule='decimal texts: exact midpoints of neighbouring floats, doubles and long doubles and texts just above, below and truncated; range limits; prefixes x bodies x tails; random texts; formatted values. Distinct texts, judged by from_chars, strto* and exact rational rounding, which must agree.'),
    'C08': dict(level='exploration', steps=[S('h_words', 'rel', 1.0), S('h_words', 'relc', 0.2), giant('C08'), S('h_words', 'fuzz', 1.0)],
                rule='all one- and two-edit neighbours, case variants and concatenations of the words, all texts of up to 5 of their letters, NULs, all two-byte texts, random; each must be accepted or rejected exactly as stated.'),
    'C09': dict(level='exploration', steps=[S('h_enum', 'rel', 3.0), S('h_enum', 'relc', 0.3), S('h_enum', 'fuzz', 1.0)],
                rule='scoped and unscoped enumerations of all 14 integral underlying types and bool: all 8- and 16-bit enumerators, boundaries and random enumerators of the wider ones; stream positions over 64 bits.'),
    'C10': dict(level='exploration', steps=[S('h_disp', 'rel', 1.0), S('h_disp', 'relc', 0.3), S('h_disp', 'fuzz', 1.0)],
                rule='values of every supported type through every generic function; strings of every kind; texts extracted as every type through std::string and C string.'),
    'C11': dict(level='exploration', steps=[S('h_str', 'rel', 2.0, mon='C11'), S('h_str', 'relc', 0.3, mon='C11'), giant('C11'), S('h_str', 'fuzz', 1.0, mon='C11')],
                rule='all strings of up to two bytes, every byte in context, lengths around allocation sizes, random byte strings; compared with a reference escaper and decoded back.'),
    'C12': dict(level='exploration', steps=[S('h_str', 'rel', 2.0, mon='C12'), S('h_str', 'relc', 0.3, mon='C12'), giant('C12'), S('h_str', 'fuzz', 1.0, mon='C12')],
                rule='as C11 for JSON, with an independent validating decoder; scalars of all types validated against the JSON grammar and value.'),
    'C13': dict(level='exploration', steps=[S('h_obj', 'rel', 2.0), S('h_obj', 'relc', 0.3), S('h_obj', 'asan', 0.3), S('h_obj', 'asanc', 0.15), S('h_obj', 'fuzz', 1.0)],
                rule='random histories of construction, copy, move, assignment, self-assignment, swap, container growth, return and destruction (with storage overwritten) for all six formatter classes; distinct operation sequences; every view compared with a string model after each step.'),
    'C14': dict(level='exploration', steps=[S('h_cap', 'rel', 0.6), S('h_raw', 'asan', 0.3, optional=True)] + mem('asan', 1.0) + mem('asanc', 0.4) + mem('fort', 0.5, ['h_int', 'h_flt', 'h_str', 'h_obj', 'h_words'])
                + [S('h_cfg', 'asan', 0.05, nofail=True, config='long')]
                + mem('vg', 0.02, ['h_flt', 'h_int', 'h_intx', 'h_words', 'h_enum', 'h_disp', 'h_str', 'h_big', 'h_fltx', 'h_obj'], distinct=False)
                + [S(h, 'fuzza', sc, nofail=True) for h, sc in (('h_int', 0.1), ('h_intx', 0.1), ('h_flt', 0.15), ('h_fltx', 0.1), ('h_words', 0.1), ('h_enum', 0.1), ('h_disp', 0.1), ('h_str', 0.15), ('h_obj', 0.1), ('h_ext', 0.1), ('h_big', 0.2))], tmul=12,
                rule='the workloads of all other checks under gcc and clang AddressSanitizer + UndefinedBehaviorSanitizer + leak checking, fortified libc with pattern-initialised locals, and valgrind memcheck; a capacity monitor compares every text with the internal buffer. A case is one conversion executed under instrumentation.'),
    'C15': dict(level='exploration', steps=[S('h_thr', 'tsan', 1.0, width=3), S('h_thr', 'tsan', 1.0, repeat=48, extra='short', width=3), S('h_thr', 'rel', 4.0, width=3), S('h_thr', 'rel', 1.0, repeat=96, extra='short', width=3), S('h_thr', 'rel', 2.0, width=3, locales=True), S('h_thr', 'tsanc', 0.3, width=3)],
                rule='8 threads started together run random, focused or identical conversions on own and shared inputs and formatters under ThreadSanitizer and natively, also as the first calls of fresh processes and under foreign locales (global and per thread); distinct (operation, argument) pairs; outcomes compared with calls made alone; tickets record which calls overlapped.'),
    'C16': dict(level='exploration', steps=[S('h_env', 'rel', 1.0, locales=True), S('h_env', 'relc', 0.2, locales=True), S('h_env', 'fuzz', 1.0)],
                rule='a list of conversions of all kinds repeated in fresh processes under every environment (six locales set globally, per category, per thread and through C++, own C++ facets, errno values, rounding modes, foreign history) and in alternation; distinct (operation, argument) pairs; outcomes compared with a pristine process.'),
    'C17': dict(level='exploration', steps=[S('h_big', 'rel', 3.0), S('h_big', 'relc', 1.5), S('h_big', 'asan', 0.3), S('h_big', 'asanc', 0.15), S('h_big', 'fuzz', 1.0)],
                rule='random operation histories over numbers with directed words (all ones, zeros, single bits), near-equal operands, growth to refusal by each operation; distinct (operation, size) sequences; words and count compared with boost cpp_int after each operation.'),
    'C18': dict(level='exploration', steps=[S('h_cls', 'rel', 1.0), S('h_cls', 'relc', 0.3), S('h_cls', 'fuzz', 1.0)],
                rule='every exponent and sign with single-bit, complement, mask and random significands, random bit patterns weighted to NaN, infinity, zero and subnormal; all 309 powers of ten.'),
    'C19': dict(level='fault_enumeration', steps=[S('h_oom', 'rel', 2.0), S('h_oom', 'relc', 0.5)],
                rule='for each call, every allocation it makes is failed in turn; a case is one fault point (call, input, index of the failed allocation) at which the failure was delivered.'),
    'C20': dict(level='exploration', steps=[S('h_cfg', 'rel', 1.0, config=c) for c in CONFIGS] + [S('h_cfg', v, 0.05, config=c) for v in ('asan', 'fort') for c in ('long', 'one', 'python')] + [S('h_cfg', 'relc', 0.1, config='prefix')],
                rule='the library rebuilt with ten sets of words (1 to 24 characters, shared prefixes, swapped, punctuated, format directives, quotes and UTF-8); every literal through every entry point and view; edit neighbours and prefixes of every word extracted.'),
    'C21': dict(level='exploration', steps=[S('h_fp', 'rel', 3.0), S('h_fp', 'relc', 3.0), S('h_fp', 'asanc', 0.1), S('h_fp', 'fuzz', 1.0)],
                rule='products of directed words (single bits, runs of ones, table entries, halves) and random words, ties and near-ties constructed by modular inverses, normalisation from every leading bit, boundaries of every binary exponent with structured and random significands; each compared with 128-bit integer arithmetic on the 128-bit and portable branches.'),
    'C22': dict(level='exploration', steps=[S('h_same', v, 1.0, digest=True) for v in ('rel', 'relc', 'o0', 'o3', 'lto', 'uchar', 'oldabi', 'clang0', 'clangs', 'pattern', 'gnus', 'debug', 'x87', 'clang3')],
                rule='the same blocks of conversions of all kinds run in fourteen differently built programs; a case is one conversion in one build; digests of the outcomes are compared block by block.'),
    'C23': dict(level='exploration', steps=[S('h_ext', 'rel', 3.0), S('h_ext', 'relc', 0.5), S('h_ext', 'asan', 0.5), S('h_ext', 'fuzz', 1.0)],
                rule='random histories of construction (text overwritten and freed right after), copy, move, assignment, swap, containers, destruction and other extractions for all six extractor classes; every live extractor is asked for a value of a random type after each step; distinct operation sequences.'),
    'C24': dict(level='exploration', steps=[S('h_cost', 'rel', 4.0), S('h_cost', 'relc', 1.0)],
                rule='37 shapes of text at sizes doubling from 16 bytes to megabytes through every string function and extraction, each call metered for processor time and heap requests; batches of numbers. A case is one metered call (shape, size, function).'),
    'C25': dict(level='exploration', steps=[S('h_life', 'rel', 4.0, repeat=16), S('h_life', 'asan', 1.0, repeat=16), S('h_life', 'relc', 1.0, repeat=16), S('h_fork', 'rel', 1.0, width=3), S('h_fork', 'relc', 0.3, width=3)],
                rule='the catalogue of conversions in static constructors of first and last priority, main, thread_local destructors, atexit functions, static destructors and forked children, in processes that use some of these moments only; each outcome compared with that in main.'),
    'C26': dict(level='exploration', steps=[S('h_intr', 'rel', 1.0), S('h_intr', 'relc', 0.5)],
                rule='21 kinds of formatting calls single-stepped; other formatting calls run in the trap handler at every instruction, at every seventh, at one chosen instruction; both texts compared with those of calls made alone. A case is one interruption.'),
    'C27': dict(level='exploration', steps=[S('h_pure', 'rel', 4.0), S('h_pure', 'relc', 1.0)],
                rule='the catalogue of conversions in fresh processes under a system-call filter; with locales, rounding modes, streams, handlers, environment, pending output and random generators compared after every call, in eight settings of them and four rounding modes; all text functions and extractions on write-protected inputs, all views of write-protected formatters. A case is one conversion watched by one of these monitors.'),
    'C28': dict(level='exploration', steps=[S('h_stack', 'rel', 2.0), S('h_stack', 'relc', 0.5), S('h_stack', 'o0', 0.2)],
                rule='37 shapes of text at sizes doubling from one byte to megabytes through every text function and extraction, and the catalogue of conversions, each on a painted stack whose high-water mark is read. A case is one measured call (shape, size, function).'),
}
for _c in CHECKS.values():
    _c.setdefault('assumptions', ASSUME)
