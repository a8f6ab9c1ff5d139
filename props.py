"""What each check runs."""
import json, os

_W = ['-Wall', '-Wextra', '-Wno-unknown-warning-option']
_SAN = ['-fsanitize=address,undefined', '-fno-sanitize-recover=all', '-fno-omit-frame-pointer']

def _v(cxx, std, opt, san=_SAN):
    f = ['-std=' + std, opt, '-g1'] + san
    return {'main': {'cxx': cxx, 'flags': f}, 'link': [cxx] + san}

VARIANTS = {
    'clang-O0': _v('clang++', 'c++17', '-O0'),
    'clang20-O0': _v('clang++', 'c++20', '-O0'),
    'clang-O2': _v('clang++', 'c++17', '-O2'),
    'clang20-O1': _v('clang++', 'c++20', '-O1'),
    'gcc-O2': _v('g++', 'c++17', '-O2', ['-fsanitize=address,undefined', '-fno-sanitize-recover=all']),
    'gcc20-O1': _v('g++', 'c++20', '-O1', ['-fsanitize=address,undefined', '-fno-sanitize-recover=all']),
}
# virtual threads: only the program is compiled with the hooks of the thread sanitizer, whose runtime is replaced by src/sched_rt.cpp
def _s(cxx, std, opt):
    return {'main': {'cxx': cxx, 'flags': ['-std=' + std, '-O2', '-g1']}, 'tsan': {'cxx': cxx, 'flags': ['-std=' + std, opt, '-g1', '-fsanitize=thread']}, 'link': [cxx, '-pthread', '-ldl']}
VARIANTS.update({
    'sched': _s('g++', 'c++17', '-O1'),
    'sched-clang': _s('clang++', 'c++17', '-O1'),
    'sched-gcc-O2': _s('g++', 'c++17', '-O2'),
    'sched-clang-O0': _s('clang++', 'c++17', '-O0'),
})
_SCHED = [v for v in VARIANTS if v.startswith('sched')]
_SEQ = [v for v in VARIANTS if not v.startswith('sched')]

# std_helpers.hpp is another program as C++20
def _cxx20(quick):
    return {'quick': [{'harness': 'hist_x', 'variant': 'clang20-O0', 'cases': quick, 'seed_add': 77, 'label': 'C++20'}], 'thorough': []}

def _hist(pol):
    u = [('hist_main', ['-DHIST_POLICIES=%d' % pol], 'main'), 'hist_ref', 'engine', 'track']
    if pol & 3: u += ['hist_atomic', 'hist_local']
    if pol & 4: u.append('hist_tracked')
    if pol & 8: u.append('hist_std')
    return {'units': u}

HARNESSES = {
    'hist': _hist(3),
    'hist_t': _hist(7),
    'hist_s': _hist(11),
    'hist_x': _hist(8),
    'misc': {'units': ['misc_main', 'misc_cmp', 'misc_make', 'misc_count', 'misc_alloc', 'engine', 'track']},
    'uniq': {'units': [('uniq_main', ['-DUNIQ_NO_STD'], 'main'), 'uniq_xmem', 'uniq_pimpl', 'uniq_hidden', 'engine', 'track']},
    'types': {'units': ['types_main', 'types_atomic1', 'types_atomic2', 'types_local1', 'types_local2', 'engine', 'track']},
    'sched': {'units': ['sched_main', 'engine', 'sched_rt', ('sched_prog', [], 'tsan')], 'only': _SCHED},
    'uniq_s': {'units': ['uniq_main', 'uniq_xmem', 'uniq_pimpl', 'uniq_hidden', 'uniq_std', 'engine', 'track']},
}

for _h in HARNESSES.values(): _h.setdefault('only', _SEQ)

def _runs(harness, quick, thorough, variants=('clang-O2', 'gcc-O2', 'clang20-O1')):
    return {
        'quick': [{'harness': harness, 'variant': 'clang-O0', 'cases': quick}],
        'thorough': [{'harness': harness, 'variant': v, 'cases': thorough, 'seed_add': 1000003 * i, 'label': v} for i, v in enumerate(variants)],
    }

def _both(*a):
    return {k: sum((x[k] for x in a), []) for k in a[0]}

_A_HIST = [
    'histories are sequential, at most about 45 operations over a fixed universe of 12 pointed-to types and 32 slots plus pointers inside the objects',
    'the reference model (src/ref.hpp) states what is right; it is written from the documentation and not from the code',
    'AddressSanitizer and UndefinedBehaviorSanitizer are trusted to notice bad memory accesses',
]
_RULE_HIST = 'A case is a random program of pointer operations over typed slots and objects which hold pointers themselves, run with the library and with a reference model; everything observable is compared after every operation. Non-trivial: '

# short histories over 26 sorts of types
def _types():
    return {'quick': [{'harness': 'types', 'variant': 'clang-O0', 'cases': 30000, 'seed_add': 31, 'label': 'sorts of types'}],
            'thorough': [{'harness': 'types', 'variant': v, 'cases': 1000000, 'seed_add': 1000003 * i + 31, 'label': 'sorts of types, ' + v} for i, v in enumerate(('clang-O2', 'gcc-O2', 'clang20-O1'))]}
_RULE_TYPES = ' Also short histories over one of 26 sorts of types (scalars, unions, enums, final, over-aligned, huge, volatile, const ones, with virtual and protected bases, with an overloaded &, with enable_shared_from variants) against a simple model; non-trivial there: '

PROPS = {}
def _p(id, level, rule, runs, assumptions=_A_HIST, technique='', note=''):
    PROPS[id] = dict(level=level, rule=rule, assumptions=list(assumptions), technique=technique, note=note, **runs)

_T = 'stateful property-based testing: random programs of pointer operations, differential against a reference model, under ASan/UBSan, with shrinking'
_N = 'Random search, no proof: holds on the programs generated. Trusts the reference model and the sanitizers.'

_RULE_SCHED = 'A case is a program of 2 to 6 threads and a schedule (where to switch, which weak compare-exchange fails, which older value a load reads); a runtime with virtual threads executes the library with it, looks for data races and bad memory accesses, and keeps the history. Non-trivial: '
_A_SCHED = ['at most 6 threads (mostly 2 to 4), about 30 operations; schedules are generated, not enumerated',
    'the memory model is happens-before with older values for relaxed and acquire loads: no load buffering and no orders of stores which differ from the order of execution',
    'the instrumentation of -fsanitize=thread reports all accesses of the program; its runtime is replaced by src/sched_rt.cpp, which is trusted',
    'xstd::atomic_shared_ptr_storage is run with threads as C++17 only, where it does not stand on std::atomic<std::shared_ptr>']
_T_SCHED = 'property-based testing of concurrent programs: random programs under generated schedules in a deterministic runtime with race detection; '
# small programs with all schedules of two preemptions (see gen_small in sched_main.cpp): how many there are, how many of them quick runs
_SMALL = {'C07': 157286400, 'C12': 157286400, 'C13': 60383232, 'C14': 66852864, 'C15': 1142784, 'C21': 44568576}
def _sched(prop, quick, thorough):
    return {'quick': [{'harness': 'sched', 'variant': 'sched', 'cases': quick, 'label': 'threads'}, {'harness': 'sched', 'variant': 'sched', 'prop': prop + 'e', 'cases': _SMALL[prop] if prop == 'C15' else 250000, 'label': 'small programs'}],
            'thorough': [{'harness': 'sched', 'variant': 'sched', 'prop': prop + 'e', 'cases': _SMALL[prop], 'label': 'small programs', 'maxtime': 6000.0}] + [{'harness': 'sched', 'variant': v, 'cases': thorough, 'seed_add': 1000003 * i, 'label': v, 'maxtime': 3000.0} for i, v in enumerate(_SCHED)]}
_p('C01', 'exploration', _RULE_HIST + 'at least two objects, and a custom deleter, unique_ptr, array, alias, storage, or more than 250 pointers to one object.' + _RULE_TYPES + 'eight or more objects and a conversion, alias, cast, unique pointer or storage.', _both(_runs('hist', 30000, 1500000), _types()), technique=_T, note=_N)
_p('C02', 'exploration', _RULE_HIST + 'a converting copy or move, a swap, a self-operation or a move happened.' + _RULE_TYPES + 'a conversion.', _both(_runs('hist', 30000, 1500000), _types()), technique=_T, note=_N)
_p('C03', 'exploration', _RULE_HIST + 'some weak pointer expired, or was locked successfully.' + _RULE_TYPES + 'a weak pointer expired.', _both(_runs('hist', 30000, 1500000), _types()), technique=_T, note=_N)
_p('C04', 'exploration', _RULE_HIST + 'a destructor acted on the pointers, or a pointer was assigned from inside the object it releases.', _runs('hist', 40000, 1500000), technique=_T, note=_N)
_p('C05', 'exploration', _RULE_HIST + 'an alias or a cast was made.' + _RULE_TYPES + 'an alias or cast.', _both(_runs('hist', 40000, 1500000), _types()), technique=_T, note=_N)
_p('C06', 'exploration', _RULE_HIST + 'an object was asked for owners of itself.' + _RULE_TYPES + 'an object was asked for owners.', _both(_runs('hist', 40000, 1500000), _types()), technique=_T, note=_N)
_p('C07', 'exploration', _RULE_HIST + 'a move, swap, successful lock or hand-out happened. After each operation the two address sets kept by the tracking control block are compared with the addresses of the living pointers. Also programs of 2 to 6 threads under generated schedules, where each thread compares after each operation; non-trivial there: threads met at an atomic variable with a switch in between.', _both(_runs('hist_t', 50000, 2000000), _sched('C07', 800000, 50000000)), _A_HIST + _A_SCHED[:3], technique=_T + '; concurrent programs under generated schedules', note=_N)
_p('C08', 'fault_enumeration', _RULE_HIST + 'an allocation, an object constructor or a control block constructor failed. The failing point (1st to 3rd allocation, constructor of base or derived part, control block) is part of the case.' + _RULE_TYPES + 'memory could not be had for a new owner.', _both(_runs('hist_t', 30000, 1500000), _types()), technique='stateful property-based testing with injected failures of allocations and constructors, against a reference model', note=_N)
_A_MISC = _A_HIST[2:]
_p('C09', 'exploration', 'A case is 2 to 8 requests: owners (block of a stateful user allocator which gives exactly the size and alignment asked for, adopted unique_ptr, make function, raw pointer, array) of objects of 24 sizes and alignments, containers over xmem::allocator against ones over another allocator, allocate() of random and of overflowing counts. Non-trivial: two or more requests.', _runs('misc', 200000, 10000000), _A_MISC, technique='property-based testing with a checking allocator, checking operator new/delete and sanitizers as oracle', note=_N)
_p('C12', 'exploration', _RULE_SCHED + 'at least one object was destroyed, and two threads met at an atomic variable with a switch in between.', _sched('C12', 2500000, 100000000), _A_SCHED, technique=_T_SCHED + 'oracle: happens-before, memory and ownership accounting', note='Random search over programs and schedules, no proof.')
_p('C13', 'exploration', _RULE_SCHED + 'threads met at an atomic variable with a switch in between and an owner was asked for.', _sched('C13', 2500000, 100000000), _A_SCHED, technique=_T_SCHED + 'oracle: which threads surely own the object during each upgrade', note='Random search over programs and schedules, no proof.')
_p('C14', 'exploration', _RULE_SCHED + 'threads met at an atomic variable with a switch in between, with more than one storage operation.', _sched('C14', 2500000, 100000000), _A_SCHED, technique=_T_SCHED + 'oracle: search for a sequential order of the history (linearizability)', note='Random search over programs and schedules, no proof.')
_p('C15', 'exploration', 'A case is a sequence of counter operations, single ones and runs of up to 16 million, on both counters, against a number. Non-trivial: zero was reached or 16 bits were exceeded. Or it is a program of 2 to 6 threads on one counter under a generated schedule, whose history must be that of some sequential order. Non-trivial: two threads met with a switch in between.',
   _both(_runs('misc', 200000, 4000000), _sched('C15', 3000000, 100000000)), _A_MISC + _A_SCHED[:3], technique='stateful property-based testing against a plain number; concurrent programs under generated schedules with a linearizability oracle', note='Random search, no proof.')
_p('C16', 'exploration', 'A case is a set of up to 14 pointers of 36 shared and 18 unique types to few addresses and owners, also weak and expired ones; all comparable pairs are compared with all six operators and by owner, all are streamed with random formatting. Non-trivial: more than 6 pairs, some with equal and some with different addresses.', _runs('misc', 200000, 10000000), _A_MISC, technique='property-based testing: differential against the built-in operators on get()', note=_N)
_p('C18', 'exploration', 'A case is 3 to 8 calls of make functions with generated arguments (count, value category, constness), types and array sizes; recorder objects note how arguments arrive and count constructions. Non-trivial: two or more calls.', _runs('misc', 400000, 20000000), _A_MISC, technique='property-based testing with recording arguments and objects', note=_N)
_RULE_UNIQ = 'A case is a random program over 22 unique pointer slots of 13 types (default, stateful, converting, referenced and function deleters, arrays) and shared pointers; the library and a reference model must log the same events and states. Non-trivial: '
_A_UNIQ = ['programs are sequential, at most about 40 operations', 'the reference model (src/ref.hpp) states what is right'] + _A_HIST[2:]
_p('C10', 'exploration', _RULE_UNIQ + 'a conversion between deleter types, a swap, release, hand-over to a shared pointer, referenced deleter, array or self-operation happened.' + _RULE_TYPES + 'a unique pointer.', _both(_runs('uniq', 100000, 4000000), _types()), _A_UNIQ, technique=_T, note=_N)
_p('C11', 'exploration', _RULE_UNIQ + 'a destructor or deleter acted on the pointers or read the pointer holding its object.', _runs('uniq', 100000, 4000000), _A_UNIQ, technique=_T, note=_N)
_p('C17', 'exploration', _RULE_HIST + 'a hand-out, alias or storage operation happened. xstd::make_shared_ptr and make_unique_ptr are called with generated values of all value categories.', _both(_runs('hist_x', 50000, 2000000), _cxx20(30000), _runs('misc', 50000, 2000000)), technique=_T, note=_N)
_p('C19', 'fault_enumeration', _RULE_HIST + 'objects existed and operations ran with every allocation refused.' + _RULE_TYPES + 'a conversion, alias, cast, storage operation or request for owners.', _both(_runs('hist', 30000, 1500000), _types()), technique='stateful property-based testing with every allocation refused during sharing operations, against a reference model', note=_N)
_p('C20', 'exploration', _RULE_HIST + 'two or more objects and six or more operations. The oracle is the same program compiled with std::shared_ptr, and the same for unique_ptr programs.', _both(_runs('hist_s', 30000, 1500000), _runs('uniq_s', 40000, 2000000)), technique='differential testing: the same random programs with std and with xmem pointers', note=_N)
_p('C21', 'exploration', _RULE_HIST + 'a destructor used the storage. Also programs of 2 to 6 threads under generated schedules, whose destructors use the storages.', _both(_runs('hist_s', 30000, 1500000), _cxx20(20000), _sched('C21', 1500000, 100000000)), _A_HIST + _A_SCHED, technique=_T + '; concurrent programs under generated schedules, which must come to an end', note=_N)
