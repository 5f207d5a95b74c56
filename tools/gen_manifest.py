#!/usr/bin/env python3
# writes /verif/MANIFEST.json from the check modules present in hsa/props
import json, os, importlib, sys
H = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, H)
sys.dont_write_bytecode = True
BASE = 'Trusts the clang 18 front end, the abstract interpreter in hsa/ and its contracts of external functions. '
T = {
'C01': ('abstract interpretation of LLVM IR with symbolic terms against an RFC 2104 oracle', 'All key sizes (both sides of the block size), message sizes and contents symbolic; the digest sequence fed to the inner and outer hash is compared with RFC 2104.'),
'C02': ('value-number dataflow on LLVM IR, canonical term equality against a FIPS 180 / RFC 1321 oracle', 'All blocks and chaining values at once: the output words are compared as canonical terms with the reference compression function.'),
'C03': ('abstract interpretation of LLVM IR with symbolic terms against a padding/serialisation oracle', 'Every block offset; hash count, values and contents symbolic.'),
'C04': ('abstract interpretation of update against an absorb contract, loop summaries by induction', 'Every prior offset, any size; together with C02/C03 gives independence of the split.'),
'C05': ('abstract interpretation of the wrappers against call-sequence contracts', 'Every size and every failure point of the called functions.'),
'C06': ('abstract interpretation with a symbolic memory model (bounds, initialisation, lifetime)', 'All sizes and contents; all paths and single failure points.'),
'C07': ('abstract interpretation of every invalid and valid argument class', 'One obligation per argument class and public function; the class is symbolic in the remaining arguments.'),
'C08': ('path-sensitive typestate analysis of the error protocol with failure injection at every call site in the abstract semantics', 'Every call site that can fail, in every reachable partition.'),
'C09': ('ownership/typestate abstract interpretation with failure branches', 'Every path including every failure point of allocation and called functions.'),
'C10': ('taint and liveness dataflow: secret bytes still in memory when its lifetime ends', 'Every frame exit and every free on success paths.'),
'C11': ('effect analysis over the IR call graph (globals written, non-reentrant callees)', 'Whole library and every call edge.'),
'C12': ('read-only and access-width effect analysis, term comparison across target endianness', 'Every access to caller inputs; the 1-block transform and finalisation are compared across big/little endian and 32/64 bit targets.'),
'C13': ('write-extent dataflow on the caller\'s digest buffer', 'Every size of the digest buffer; the exact set of bytes written is computed.'),
'C14': ('compile-time witnesses and a signature/constant query over headers and IR', 'Every declaration of the public headers against its definition; constants against the standard.'),
'C15': ('typestate abstract interpretation of the OpenSSL and EVP builds against backend contracts', 'Four backend configurations; every call of the backend can fail.'),
'C16': ('taint dataflow: secret-dependent branches, addresses and lengths', 'All branches and accesses met on any path of the built-in implementation.'),
'C17': ('ranking-function inference on loops and call-graph acyclicity', 'Every loop of every library function; every call edge.'),
'C18': ('symbolic term evaluation of the byte-stream macros against an oracle', 'Every macro, every input value at once.'),
'C19': ('abstract interpretation / table dataflow of the sum tool', 'Every digest type and option spelling.'),
'C20': ('typestate abstract interpretation of the tool read loop', 'Any stream of reads of any sizes.'),
'C21': ('path-sensitive exit-status dataflow of hmacsum main', 'Every failing call on every path.'),
'C22': ('symbolic term evaluation of the hex conversion', 'Every byte value and both character widths.'),
'C23': ('abstract interpretation of the size-string parser', 'Every suffix and digit step symbolic.'),
'C24': ('ownership/typestate abstract interpretation of the tools', 'Every path including every failure point.'),
'C25': ('call-sequence dataflow and table witnesses on the Python binding', 'Every binding function and table row.'),
'C26': ('reference-count, ownership and GIL typestate dataflow on the Python binding', 'Every path including every failure point of the C API and library calls.'),
'C27': ('exception typestate dataflow on the Python binding', 'Every path including every failure point.'),
'C30': ('dead-store rule over the taint dataflow of C10', 'Every clearing of secret data on every path.'),
'C31': ('lockset (Eraser-style) and staleness analysis on the IR of the Python binding', 'Every access of every method on every path, with the locks held there.'),
'C32': ('abstract interpretation of main over option sequences with distinct arguments; the option parser over argument vectors of character classes against a getopt oracle', 'Every option, order and repetition of a few; argument vectors of up to three arguments whose characters are classes.'),
'C33': ('symbolic evaluation of the size formatter over the sizes partitioned at the powers of the unit', 'All 64-bit sizes in both units; the printed arguments compared with quotient and remainder.'),
'C34': ('constant propagation of domains, codes and names to every recording site through the call graph; abstract interpretation of failing calls comparing the first error with the cause', 'Every site in every configuration; every failing step and refused argument of the library, sum handle and module.'),
}
NA = {
'C28': 'A statement about computational complexity and cryptographic strength; nothing in the source bounds what an attacker can compute. C01-C04 decide that the right functions are computed.',
'C29': 'Execution time and cache state are quantities of the generated code and the processor, not of the source this family inspects; the source-level counterpart is C16.',
}
props = [json.loads(l) for l in open(os.path.join(H, 'properties.jsonl'))]
titles = {p['id']: p['title'] for p in props}
checks, na = [], []
for p in props:
    i = p['id']
    if i in T and os.path.exists(os.path.join(H, 'hsa/props', i.lower() + '.py')):
        m = importlib.import_module('hsa.props.' + i.lower())
        checks.append({'property': i, 'quick_cmd': './check ' + i, 'thorough_cmd': './check ' + i + ' thorough', 'evidence_file': 'evidence/%s.json' % i,
            'technique': 'static analysis: ' + T[i][0], 'level': m.LEVEL, 'level_note': T[i][1] + ' ' + BASE + ' '.join(getattr(m, 'ASSUMPTIONS', []))})
    else:
        na.append({'property': i, 'reason': NA.get(i, 'Not claimed yet: its check is still being built.')})
M = {'version': 1, 'setup_cmd': 'clang --version && python3 -c "import hsa.runner"', 'checks': checks, 'not_applicable': na,
     'notes': 'No hooks: the checks read /repo\'s sources as they are.'}
json.dump(M, open(os.path.join(H, 'MANIFEST.json'), 'w'), indent=1)
print(len(checks), 'checks', len(na), 'not applicable')
