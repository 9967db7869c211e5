#!/usr/bin/env python3
"""Writes MANIFEST.json. A property is claimed when its check exists."""
import json, os
V = os.path.join(os.path.dirname(os.path.abspath(__file__)), '..')
EX = 'exploration'
C = {
 'C01': ('runtime monitoring: reference framing scanner as online oracle over hostile generated streams', EX, 'Every result, its order, content and the buffered length were compared with an independent scanner on the executions run; trusts the scanner (60 lines).'),
 'C02': ('runtime monitoring: differential trace comparison of chunked/early-dropped runs against the one-piece run, plus framing automaton', EX, 'Held on the executed streams, partitions and drop points; all split points of short streams are covered.'),
 'C03': ('runtime monitoring: online framing automaton (nondeterministic only for frames larger than the buffer)', EX, 'Held on the executed streams, capacities and chunkings; trusts the automaton.'),
 'C04': ('runtime monitoring: reference dispatch/validation model as oracle over enumerated class/id pairs, lengths and validated bytes', EX, 'All 65536 class/id pairs and all values of one-byte validated fields are executed; lengths and payloads sampled; trusts the frozen packet table (spec/packets.json).'),
 'C05': ('runtime monitoring: every accessor compared with an independent decoder from a frozen protocol table; bit-dependency monitor', EX, 'Every field of every packet is executed with corner, single-bit and random payloads; trusts the frozen table.'),
 'C06': ('runtime monitoring: exhaustive 8-bit and bit-pair execution of enum/flag accessors against a frozen table', EX, 'All 8-bit values and all single/pair bit patterns of wider words executed; trusts the frozen table.'),
 'C07': ('runtime monitoring: iterator trace checked against records cut from the wire by an independent decoder', EX, 'Held on executed record counts (0..maximum) and contents.'),
 'C08': ('runtime monitoring: panic and abort monitor around every public read-side operation under hostile workloads', EX, 'No panic on the executed inputs other than the listed findings.'),
 'C09': ('sanitizers: Miri (undefined-behaviour interpreter), AddressSanitizer build, guard bytes around caller memory', EX, 'No report on the executed histories; AddressSanitizer on many, Miri on a smaller set.'),
 'C10': ('runtime monitoring: three output paths recorded and compared with an independent encoder', EX, 'Every builder and field executed with corner and random values; trusts the frozen table.'),
 'C11': ('runtime monitoring: build-parse and parse-rebuild histories compared field by field and byte by byte', EX, 'Held on the executed values.'),
 'C12': ('runtime monitoring: encoded integers judged against real-number nearest/saturate oracle', EX, 'Every scaled field executed over the whole float range; within floating-point rounding of the division.'),
 'C13': ('runtime monitoring: recording Extend container, reference encoder and re-parse of every appended frame', EX, 'Held on executed lists, layers and container contents.'),
 'C14': ('runtime monitoring: all 434 keys encoded, decoded, iterated against a frozen key table; guard bytes', EX, 'Every key with all small-type values and sampled wide values; trusts the frozen table.'),
 'C15': ('runtime monitoring: conversions compared with exact decimal/calendar oracles', EX, 'Held on executed coordinates, velocities and instants.'),
 'C16': ('runtime monitoring: serialized output parsed by a duplicate-aware JSON reader and compared with accessors', EX, 'Every packet type and field executed.'),
 'C17': ('fault injection with a recording writer: every write position and both error kinds enumerated, trace specification checked', 'fault_enumeration', 'All fault positions of every builder for sampled field values.'),
 'C18': ('runtime monitoring: the same workload executed under all eight feature sets, result digests compared', EX, 'All 8 combinations of std, serde, alloc; differential oracle; held on the executed cases.'),
 'C19': ('runtime monitoring: generated packet descriptions compiled and executed, observed against the generator-side model', EX, 'Random descriptions; compiled by the real macros and executed.'),
 'C20': ('runtime monitoring: the real tool on a pseudo-terminal with a simulated receiver, trace specification over bytes and output', EX, 'Held on executed option sets and receiver behaviours.'),
 'C21': ('runtime monitoring: helper outputs compared with independent encodings; full class/id matrix for acknowledgements', EX, 'All packets and all 65536 class/id pairs executed; instants and positions sampled.'),
 'C22': ('runtime monitoring: model-based operation histories (byte queue) with guard bytes', EX, 'Held on executed histories.'),
 'C23': ('runtime monitoring: instrumented buffer checks call contract, counts operations, compares results', EX, 'Held on executed streams; work bound linear with a fixed constant.'),
 'C25': ('runtime monitoring: debug text compared with a text built from the accessors and the frozen field table', EX, 'Every packet type executed with corner and random payloads; trusts the frozen field names.'),
 'C26': ('runtime monitoring: serialize/deserialize histories compared by debug text and by the encoded configuration message', EX, 'All values of the small types, sampled words and coordinates; JSON only.'),
 'C27': ('runtime monitoring: transcripts of interleaved, nested and concurrent use compared with solo runs; ThreadSanitizer on the sections with threads', EX, 'Held on the executed interleavings and thread schedules; schedules are sampled, ThreadSanitizer generalises over them by happens-before.'),
 'C28': ('runtime monitoring: counting global allocator around parsing, reading, building and long streams', EX, 'Every allocation of the executed histories is counted; the bound for growable parsers is generous (4x the bytes waiting + 64 kB).'),
 'C24': ('runtime monitoring of the compiler run: accept/reject observed on generated descriptions with one injected contradiction', EX, 'Held on executed descriptions.'),
}
props = [json.loads(l)['id'] for l in open(os.path.join(V, 'properties.jsonl'))]
m = {'version': 1, 'setup_cmd': 'python3 tools/setup.py', 'hooks': {'guard': 'cfg(ublox_verif)', 'enable': 'RUSTFLAGS="--cfg ublox_verif" and UBLOX_VERIF_GEN=<file of generated descriptions> when building the ublox crate; only C19 and C24 use it, every other check observes the public interface', 'source_commits': ['deb5d3e5dec651f8ac8a3e198db4f689b70e812c']}, 'checks': [], 'not_applicable': []}
for p in props:
    have = os.path.exists(f'{V}/harness/src/bin/{p.lower()}.rs') or os.path.exists(f'{V}/tools/check_{p.lower()}.py')
    if have and p in C:
        t, l, n = C[p]
        m['checks'].append({'property': p, 'quick_cmd': f'python3 check.py {p} quick', 'thorough_cmd': f'python3 check.py {p} thorough', 'evidence_file': f'evidence/{p}.json', 'technique': t, 'level': l, 'level_note': n})
    else:
        m['not_applicable'].append({'property': p, 'reason': 'not claimed yet: its check is not built'})
m['notes'] = 'Driver: check.py; harness crate: harness/; frozen protocol tables: spec/. See DESIGN.md.'
json.dump(m, open(f'{V}/MANIFEST.json', 'w'), indent=1); open(f'{V}/MANIFEST.json', 'a').write('\n')
print(len(m['checks']), 'claimed;', [x['property'] for x in m['not_applicable']], 'not')
